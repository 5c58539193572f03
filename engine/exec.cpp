// zsym: symbolic executor for LLVM IR (the subset clang emits for zzzJSON) over z3.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <chrono>
#include <set>
#include <deque>
#include <cmath>
#include <atomic>
#include <map>
using namespace llvm;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
typedef std::string Str;

// ---------------------------------------------------------------- ref counting
template <class T> struct Ref {
  T *p; Ref() : p(nullptr) {} Ref(T *x) : p(x) { if (p) p->rc++; } Ref(const Ref &o) : p(o.p) { if (p) p->rc++; } Ref(Ref &&o) : p(o.p) { o.p = nullptr; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  Ref &operator=(Ref o) { std::swap(p, o.p); return *this; }
  T *operator->() const { return p; } T &operator*() const { return *p; } explicit operator bool() const { return p; }
  T *own() { if (p->rc > 1) { T *n = new T(*p); n->rc = 1; --p->rc; p = n; } return p; }
};

// ---------------------------------------------------------------- memory
enum { PG = 64 };
struct Page { int rc = 0; uint64_t init = 0, symm = 0; uint8_t d[PG]; E s[PG]; Page() {} Page(const Page &o) : rc(0), init(o.init), symm(o.symm) { memcpy(d, o.d, sizeof d); if (symm) memcpy(s, o.s, sizeof s); } };
enum Kind : uint8_t { KGlobal, KConst, KStack, KHeap };
struct Obj { int rc = 0; uint64_t base; uint32_t size; Kind kind; bool freed = false, writeOnce = false; int tag = 0; uint32_t seq = 0; int roDepth = 0; std::vector<Ref<Page>> pg; const char *what = ""; };
typedef Ref<Obj> ObjR;
static const uint64_t GBASE = 0x10000000, SBASE = 0x20000000, HBASE = 0x40000000, FBASE = 0x08000000;

// ---------------------------------------------------------------- program
struct Opnd { int reg = -1; Val k; bool undef = false; };
struct Func;
enum IK : uint8_t { ILoad, IStore, IAlloca, IGep, IBin, ICmp, ICast, ISelect, IBr, ICondBr, ISwitch, IRet, ICall, IUnreach, INop, IFCmp, IFNeg, IFreeze, IUnsup };
struct GepIdx { Opnd o; int64_t scale; uint8_t w; };
struct Ins {
  IK k; Op op = OConst; uint8_t w = 0, w2 = 0; int dst = -1; Opnd a, b, c; int64_t off = 0; std::vector<GepIdx> idx;
  std::vector<Opnd> args; std::vector<uint8_t> argw; Func *callee = nullptr; int intr = 0; int t1 = -1, t2 = -1; uint8_t pred = 0;
  std::vector<std::pair<uint64_t, int>> cases; Str why; uint32_t size = 0; const Instruction *I = nullptr; uint32_t loc = 0;
};
struct PhiCopy { int dst; Opnd o; uint8_t w; };
struct Blk { std::vector<Ins> ins; std::map<int, std::vector<PhiCopy>> phis; std::set<uint32_t> locs; uint64_t hits = 0; };
struct Func { const Function *F; Str name; int nregs = 0, nargs = 0; std::vector<Blk> blks; std::vector<uint8_t> argw; bool decoded = false; bool repo = false; uint64_t calls = 0; };
enum Intr { XNone, XSym, XChoose, XAssume, XAssert, XReach, XMalloc, XFree, XMemcpy, XMemset, XNop, XAbort, XIntToDec, XDblToDec, XUfDouble, XLive, XPeak, XTag, XGuard, XNote, XExpect, XSymv, XFrozen, XCost, XMem, XIsConc, XObjSize, XGap, XFail, XVal, XUMax, XUMin, XSMax, XSMin, XAbs, XUpto, XTrace, XDecimal };

struct Loc { Str file; unsigned line; Str fn; };
static std::vector<Loc> locs(1); static std::map<std::tuple<Str, unsigned, Str>, uint32_t> locIds;
static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::map<const Function *, Func *> funcs; static std::vector<Func *> funcVec; static std::map<uint64_t, Func *> funcByAddr; static std::map<const Function *, uint64_t> funcAddr;
static std::map<const GlobalVariable *, uint64_t> gaddr; static std::vector<ObjR> constObjs; static std::vector<ObjR> globInit;
static std::vector<std::pair<uint64_t, std::pair<bool, int>>> gIndex; // base -> (const?, index)
static Str repoPrefix = "/repo/"; static bool iso = false;
// the allocator function that mode --iso replaces, only while it still has the signature block *(allocator *, size)
static bool isBlockAlloc(const Function *f, const Str &b) { if (b != "zj_allocatorAlloc" && b != "z_AllocatorAlloc") return false; return f->arg_size() == 2 && f->getReturnType()->isPointerTy() && f->getArg(0)->getType()->isPointerTy() && f->getArg(1)->getType()->isIntegerTy(); }
static int verbose = 0;

struct Unsup { Str m; };
[[noreturn]] static void unsup(const Str &m) { throw Unsup{m}; }
[[noreturn]] static void die(const Str &m) { fprintf(stderr, "zsym: %s\n", m.c_str()); fflush(stderr); _exit(3); }

// ---------------------------------------------------------------- state
struct Frame { int rc = 0; Func *f; int blk = 0, ip = 0; std::vector<Val> r; size_t stackMark; uint64_t spMark; int retDst = -1; uint32_t callLoc = 0; };
struct Input { char kind; Str name; std::vector<E> es; std::vector<uint8_t> ws; };
struct UfD { std::vector<E> bytes; Val v; };
struct Inputs { int rc = 0; std::vector<Input> v; std::map<Str, int> cnt; };
struct State {
  std::vector<Ref<Frame>> fr; std::vector<ObjR> glob, stk, heap; uint64_t sp = SBASE, hp = HBASE; uint32_t mallocs = 0; int live = 0;
  PathCond pc; Ref<Inputs> in; std::vector<std::pair<Str, Val>> trace; bool bad = false; std::vector<UfD> uf, dec; uint64_t steps = 0, peak = 0, bulk = 0, mem = 0; int tag = 0, guard = 0; uint32_t dtoa = 0; bool uncertain = false; uint32_t undefs = 0, depth = 0;
};
struct Cand { Str kind, msg, loc, stack, replay; };

static Solver *S;
static uint64_t stepLimit = 400000; static double tStart, tLimit = 1e9; static int maxCand = 12; static int fanCap = 600;
struct Shared { std::atomic<uint32_t> next, found; }; static Shared *sh; static double grace = 0; // seconds left for more counterexamples after the first
struct Totals { uint64_t paths = 0, errors = 0, steps = 0, forks = 0, assertsChecked = 0, assertQ = 0, dropped = 0, assumed = 0, unknowns = 0, capped = 0; } T;
static std::map<Str, uint64_t> reachHits; static std::map<Str, uint64_t> assertHits; static std::vector<Cand> cands; static std::set<Str> candKeys;
static std::vector<State *> work;

static Str locStr(uint32_t l) { if (!l) return "?"; return locs[l].fn + " (" + locs[l].file.substr(locs[l].file.rfind('/') + 1) + ":" + std::to_string(locs[l].line) + ")"; }
static uint32_t curLoc(State &st) { if (st.fr.empty()) return 0; Frame &f = *st.fr.back(); auto &b = f.f->blks[f.blk]; if (f.ip < (int)b.ins.size()) return b.ins[f.ip].loc; return 0; }
static Str jesc(const Str &s) { Str r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

static Str modelText(State &st, const PathCond &pc) {
  Model m; if (!S->model(pc, m)) return "";
  EvalMemo memo; Str out;
  std::vector<Input> ins = st.in->v; std::map<Str, bool> heapSeen;
  for (auto &i : ins) {
    out += Str(1, i.kind) + " " + i.name; char b[32];
    for (size_t k = 0; k < i.es.size(); k++) { snprintf(b, 32, " %llx", (unsigned long long)evalE(i.es[k], m, memo)); out += b; } out += "\n";
  }
  // values chosen for uninitialised heap bytes
  for (auto &kv : m) { const Str &n = P.varName[kv.first]; unsigned seq, off; if (sscanf(n.c_str(), "heap.%u.%u", &seq, &off) == 2) { char b[64]; snprintf(b, 64, "H %u %u %llx\n", seq, off, (unsigned long long)kv.second); out += b; } }
  return out;
}
static void report(State &st, const PathCond &pc, const Str &kind, const Str &msg) {
  T.errors++; if (sh && !sh->found) sh->found = (uint32_t)((now() - tStart) * 10) + 1; Str l = locStr(curLoc(st)); Str key = kind + "|" + msg + "|" + (kind == "assert" ? "" : l);
  if (candKeys.count(key) || (int)cands.size() >= maxCand) return; candKeys.insert(key);
  Cand c; c.kind = kind; c.msg = msg; c.loc = l; for (int i = (int)st.fr.size() - 1, k = 0; i >= 0; i--, k++) { if (k == 12 && i > 2) { c.stack += "... < "; i = 2; } c.stack += st.fr[i]->f->name; if (i) c.stack += " < "; }
  c.replay = modelText(st, pc); cands.push_back(c);
  if (verbose) { fprintf(stderr, "CAND %s: %s at %s\n%s", kind.c_str(), msg.c_str(), l.c_str(), c.replay.c_str()); }
}
struct PathEnd {}; // thrown to stop the current path

static std::map<Str, uint64_t> unsupHits;
[[noreturn]] static void stopUnsup(const Str &m) { unsupHits[m]++; throw PathEnd(); }
static void violation(State &st, const Str &kind, const Str &msg) { report(st, st.pc, kind, msg); throw PathEnd(); }

static Obj *findIn(std::vector<ObjR> &v, uint64_t a, int *ix) {
  size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->base <= a) lo = m + 1; else hi = m; }
  if (!lo) return nullptr; *ix = (int)lo - 1; return v[lo - 1].p;
}
static Obj *lookup(State &st, uint64_t a, uint32_t n, bool wr, std::vector<ObjR> **vec, int *ix, const char **err) {
  Obj *o = nullptr; *vec = nullptr; *err = nullptr;
  if (a < 4096) { *err = "null-pointer dereference"; return nullptr; }
  if (a >= HBASE) { o = findIn(st.heap, a, ix); *vec = &st.heap; }
  else if (a >= SBASE) { o = findIn(st.stk, a, ix); *vec = &st.stk; }
  else if (a >= GBASE) {
    size_t lo = 0, hi = gIndex.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (gIndex[m].first <= a) lo = m + 1; else hi = m; }
    if (lo) { auto &g = gIndex[lo - 1].second; *ix = g.second; if (g.first) { o = constObjs[g.second].p; } else { o = st.glob[g.second].p; *vec = &st.glob; } }
  }
  if (!o) { *err = "access to an invalid address"; return nullptr; }
  if (o->freed) { *err = a < o->base + o->size + 16 ? "use after free" : "access to an invalid address"; return nullptr; }
  if (a + n > o->base + o->size || a < o->base) { *err = wr ? (o->kind == KHeap ? "write outside a heap block" : o->kind == KStack ? "write outside a stack object" : "write outside a global object") : (o->kind == KHeap ? "read outside a heap block" : o->kind == KStack ? "read outside a stack object" : "read outside a global object"); return nullptr; }
  if (wr && o->kind == KConst) { *err = "write to a constant object"; return nullptr; }
  if (st.guard && o->kind == KGlobal && wr) { *err = "write to shared static state"; return nullptr; }
  if (st.tag && o->kind == KHeap && o->tag && o->tag != st.tag) { *err = wr ? "write to memory owned by another thread's allocator" : "access to memory owned by another thread's allocator"; return nullptr; }
  if (wr && o->roDepth) { *err = "write to memory that must stay unmodified"; return nullptr; }
  return o;
}
static Val byteAt(State &st, std::vector<ObjR> *vec, int ix, Obj *o, uint32_t off) {
  Page *p = o->pg[off / PG].p; unsigned k = off % PG; uint64_t bit = 1ULL << k;
  if (!(p->init & bit)) {
    char nm[64]; if (o->kind == KHeap) snprintf(nm, 64, "heap.%u.%u", o->seq, off); else snprintf(nm, 64, "stk.%llx.%u.%u", (unsigned long long)o->base, off, st.undefs++);
    E e = P.namedVar(8, nm); Obj *w = (*vec)[ix].own(); Page *q = w->pg[off / PG].own(); q->init |= bit; q->symm |= bit; q->s[k] = e; return Val(e);
  }
  if (p->symm & bit) return Val(p->s[k]); return Val((uint64_t)p->d[k]);
}
static void putByte(Obj *o, uint32_t off, Val v) {
  Page *q = o->pg[off / PG].own(); unsigned k = off % PG; uint64_t bit = 1ULL << k; q->init |= bit;
  if (v.e) { q->symm |= bit; q->s[k] = v.e; } else { q->symm &= ~bit; q->d[k] = (uint8_t)v.c; }
}
static Val loadC(State &st, uint64_t a, uint32_t n) {
  std::vector<ObjR> *vec; int ix; const char *err; Obj *o = lookup(st, a, n, false, &vec, &ix, &err);
  if (!o) violation(st, "memory", err);
  uint32_t off = (uint32_t)(a - o->base);
  if (off / PG == (off + n - 1) / PG) { Page *p = o->pg[off / PG].p; unsigned k = off % PG; uint64_t mk = (n == 64 ? ~0ULL : ((1ULL << n) - 1)) << k; if ((p->init & mk) == mk && !(p->symm & mk)) { uint64_t v = 0; memcpy(&v, p->d + k, n); return Val(v); } }
  bool allc = true; Val bs[8]; for (uint32_t i = 0; i < n; i++) { bs[i] = byteAt(st, vec, ix, o, off + i); if (vec) o = (*vec)[ix].p; if (bs[i].e) allc = false; }
  if (allc) { uint64_t v = 0; for (uint32_t i = 0; i < n; i++) v |= bs[i].c << (8 * i); return Val(v); }
  E e = toE(bs[0], 8); for (uint32_t i = 1; i < n; i++) e = mkConcat(toE(bs[i], 8), e); return toV(e);
}
static void storeC(State &st, uint64_t a, Val v, uint32_t n) {
  std::vector<ObjR> *vec; int ix; const char *err; Obj *o = lookup(st, a, n, true, &vec, &ix, &err);
  if (!o) violation(st, "memory", err);
  o = (*vec)[ix].own(); uint32_t off = (uint32_t)(a - o->base);
  if (!v.e) { for (uint32_t i = 0; i < n; i++) putByte(o, off + i, Val((v.c >> (8 * i)) & 255)); }
  else { E e = v.e; for (uint32_t i = 0; i < n; i++) putByte(o, off + i, toV(mkExtract(e->w < 8 ? mkZExt(e, 8) : e, 8 * i, 8))); }
}
static ObjR mkObj(uint64_t base, uint32_t size, Kind k) { Obj *o = new Obj(); o->base = base; o->size = size; o->kind = k; for (uint32_t i = 0; i < (size + PG - 1) / PG; i++) o->pg.push_back(Ref<Page>(new Page())); return ObjR(o); }

static State *cloneS(State &st) { State *n = new State(st); n->fr.back().own(); return n; }

// Make a value concrete by forking on its feasible values; the current instruction is re-executed by the siblings.
static uint64_t conc(State &st, Val v, unsigned w, const char *what) {
  if (!v.e) return v.c;
  E e = v.e; uint64_t x; E tr = P.K(1, 1);
  if (!S->value(st.pc, e, tr, x)) { T.unknowns++; throw PathEnd(); }
  E eq = mkBin(OEq, e, P.K(x, w)), ne = mkNot(eq);
  int r = S->may(st.pc, ne);
  if (r != 0) {
    if (r < 0) T.unknowns++;
    State *o = cloneS(st); S->add(o->pc, ne); o->depth++; T.forks++;
    if ((int)o->depth > 4000) { T.capped++; delete o; } else work.push_back(o);
  }
  S->add(st.pc, eq); S->know(st.pc, e, x); (void)what; return x;
}
// A load through an address that depends on one symbolic byte becomes a table lookup. Only entries that could not be
// read (outside the object, or not constant) are tested for feasibility.
static bool tableLoad(State &st, E a, uint32_t n, Val &out) {
  if (a->vars->size() != 1) return false; uint32_t v = (*a->vars)[0]; E idx = P.varExpr[v]; if (idx->w != 8) return false;
  Group *g = S->slice(st.pc, a->vars); bool single = !g || g->vars->size() == 1; std::unordered_map<uint32_t, uint64_t> m;
  Table t(256, 0); std::vector<bool> have(256, false); int cnt = 0; uint64_t last = 0; bool ident = true;
  for (int i = 0; i < 256; i++) { m[v] = i; EvalMemo memo;
    if (single && g) { bool ok = true; for (E c : g->cs) if (!evalE(c, m, memo)) { ok = false; break; } if (!ok) continue; }
    uint64_t ad = evalE(a, m, memo); std::vector<ObjR> *vec; int ix; const char *err; bool good = false; Val r;
    if (lookup(st, ad, n, false, &vec, &ix, &err)) { r = loadC(st, ad, n); good = !r.e; }
    if (!good) { if (single) return false; if (S->may(st.pc, mkBin(OEq, idx, P.K(i, 8))) != 0) return false; continue; }
    t[i] = r.c; have[i] = true; if (!cnt++) last = r.c; if (r.c != (uint64_t)i) ident = false; }
  if (!cnt) return false;
  if (ident && n == 1) { out = Val(idx); return true; }
  for (int i = 0; i < 256; i++) { if (have[i]) last = t[i]; else t[i] = last; } // infeasible entries: any value will do, keep runs long
  out = toV(mkTab(idx, n * 8, t)); return true;
}
static Val loadV(State &st, Val a, uint32_t n) {
  if (!a.e) return loadC(st, a.c, n);
  Val r; if (tableLoad(st, a.e, n, r)) return r;
  uint64_t c = conc(st, a, 64, "load address"); return loadC(st, c, n);
}

// ---------------------------------------------------------------- decoding
static uint32_t locOf(const Instruction &I) {
  if (DILocation *d = I.getDebugLoc()) { Str fn; if (auto *sp = d->getScope()->getSubprogram()) fn = sp->getName().str(); Str file = d->getFilename().str(); if (!file.empty() && file[0] != '/') file = d->getDirectory().str() + "/" + file; auto k = std::make_tuple(file, d->getLine(), fn); auto it = locIds.find(k); if (it != locIds.end()) return it->second; uint32_t id = locs.size(); locs.push_back({file, d->getLine(), fn}); locIds[k] = id; return id; }
  return 0;
}
static unsigned widthOf(Type *t) {
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) unsup("integer wider than 64 bits"); return w; }
  if (t->isPointerTy() || t->isDoubleTy()) return 64; if (t->isVoidTy()) return 0;
  if (t->isFloatTy()) return 32;
  Str s; raw_string_ostream o(s); t->print(o); unsup("unsupported type " + s);
}
static uint64_t constVal(const Constant *c);
static uint64_t constVal(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) return i->getZExtValue();
  if (auto *f = dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().getZExtValue();
  if (isa<ConstantPointerNull>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (isa<UndefValue>(c)) return 0;
  if (auto *g = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) die("unknown global " + g->getName().str()); return it->second; }
  if (auto *f = dyn_cast<Function>(c)) { auto it = funcAddr.find(f); if (it != funcAddr.end()) return it->second; uint64_t a = FBASE + 16 * (funcAddr.size() + 1); funcAddr[f] = a; return a; }
  if (auto *a = dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    if (e->getOpcode() == Instruction::GetElementPtr) { APInt off(64, 0); if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) unsup("constant gep"); return constVal(e->getOperand(0)) + off.getSExtValue(); }
    if (e->isCast()) { uint64_t v = constVal(e->getOperand(0)); if (e->getType()->isIntegerTy()) v &= maskw(e->getType()->getIntegerBitWidth()); return v; }
    if (e->getOpcode() == Instruction::Sub) return constVal(e->getOperand(0)) - constVal(e->getOperand(1));
    if (e->getOpcode() == Instruction::Add) return constVal(e->getOperand(0)) + constVal(e->getOperand(1));
  }
  Str s; raw_string_ostream o(s); c->print(o); unsup("unsupported constant " + s);
}
static void initBytes(Obj *o, uint64_t off, const Constant *c) {
  Type *t = c->getType(); uint64_t n = DL->getTypeStoreSize(t);
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { for (uint64_t i = 0; i < n; i++) putByte(o, off + i, Val((uint64_t)0)); return; }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < d->getNumElements(); i++) initBytes(o, off + i * d->getElementByteSize(), d->getElementAsConstant(i)); return; }
  if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initBytes(o, off + sl->getElementOffset(i), s->getOperand(i)); return; }
  if (auto *a = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initBytes(o, off + i * es, a->getOperand(i)); return; }
  uint64_t v = constVal(c); for (uint64_t i = 0; i < n; i++) putByte(o, off + i, Val((v >> (8 * i)) & 255));
}
static Str baseName(const Function *f) { Str n = f->getName().str(); if (n.rfind("_Z", 0) == 0) { Str d = demangle(n); size_t p = d.find('('); if (p != Str::npos) d = d.substr(0, p); size_t q = d.rfind("::"); if (q != Str::npos) d = d.substr(q + 2); return d; } return n; }
static const std::map<Str, int> intrByName = {
  {"vf_sym", XSym}, {"vf_choose", XChoose}, {"vf_upto", XUpto}, {"vf_assume", XAssume}, {"vf_assert", XAssert}, {"vf_reach", XReach}, {"vf_malloc", XMalloc}, {"vf_free", XFree}, {"malloc", XMalloc}, {"free", XFree},
  {"_Znwm", XMalloc}, {"_Znam", XMalloc}, {"_ZdlPv", XFree}, {"_ZdlPvm", XFree}, {"_ZdaPv", XFree},
  {"memcpy", XMemcpy}, {"memmove", XMemcpy}, {"memset", XMemset}, {"abort", XAbort}, {"exit", XAbort}, {"__assert_fail", XAbort}, {"__cxa_pure_virtual", XAbort},
  {"vf_itoa", XIntToDec}, {"vf_decimal_is", XDecimal}, {"vf_dtoa", XDblToDec}, {"vf_dtoa_untied", XDblToDec}, {"vf_uf_double", XUfDouble}, {"vf_live", XLive}, {"vf_stack_peak", XPeak}, {"vf_tag", XTag}, {"vf_guard_statics", XGuard}, {"vf_note", XNote}, {"vf_cost", XCost}, {"vf_mem", XMem}, {"vf_freeze", XFrozen}, {"vf_is_symbolic", XIsConc}, {"vf_block_size", XObjSize}, {"vf_gap", XGap}, {"vf_fail", XFail}, {"vf_trace", XTrace}};
static Func *getFunc(const Function *f) { auto it = funcs.find(f); if (it != funcs.end()) return it->second; Func *n = new Func(); n->F = f; n->name = baseName(f); funcs[f] = n; funcVec.push_back(n); return n; }
static void decode(Func *fn) {
  if (fn->decoded) return; fn->decoded = true; const Function *F = fn->F; if (F->isDeclaration()) die("call to undefined function " + F->getName().str());
  std::map<const Value *, int> reg; std::map<const BasicBlock *, int> bid; int n = 0;
  if (auto *sp = F->getSubprogram()) { Str file = sp->getFilename().str(); if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file; fn->repo = file.rfind(repoPrefix, 0) == 0; }
  for (auto &a : F->args()) { reg[&a] = n++; try { fn->argw.push_back(widthOf(a.getType())); } catch (Unsup &u) { fn->argw.push_back(64); } } fn->nargs = n;
  for (auto &b : *F) { int k = bid.size(); bid[&b] = k; for (auto &i : b) if (!i.getType()->isVoidTy()) reg[&i] = n++; }
  fn->nregs = n; fn->blks.resize(bid.size());
  auto op = [&](const Value *v) { Opnd o; auto it = reg.find(v); if (it != reg.end()) { o.reg = it->second; return o; } if (auto *c = dyn_cast<Constant>(v)) { if (isa<UndefValue>(c)) { o.undef = true; return o; } if (!c->getType()->isAggregateType()) o.k = Val(constVal(c)); return o; } if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return o; unsup("operand"); };
  int bi = 0;
  for (auto &b : *F) {
    Blk &B = fn->blks[bi++];
    for (auto &I : b) {
      if (auto *ph = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { uint8_t pw = 64; try { pw = widthOf(ph->getType()); } catch (Unsup &) {} B.phis[bid[ph->getIncomingBlock(i)]].push_back({reg[ph], op(ph->getIncomingValue(i)), pw}); } continue; }
      Ins x; x.I = &I; x.loc = locOf(I); if (x.loc) B.locs.insert(x.loc); if (reg.count(&I)) x.dst = reg[&I];
      try { switch (I.getOpcode()) {
      case Instruction::Load: x.k = ILoad; x.w = widthOf(I.getType()); x.a = op(I.getOperand(0)); break;
      case Instruction::Store: x.k = IStore; x.w = widthOf(I.getOperand(0)->getType()); x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); break;
      case Instruction::Alloca: { auto *al = cast<AllocaInst>(&I); x.k = IAlloca; if (!isa<ConstantInt>(al->getArraySize())) { x.w = widthOf(al->getArraySize()->getType()); x.a = op(al->getArraySize()); x.off = 1; x.size = DL->getTypeAllocSize(al->getAllocatedType()); break; } uint64_t cnt = cast<ConstantInt>(al->getArraySize())->getZExtValue(); x.size = cnt * DL->getTypeAllocSize(al->getAllocatedType()); break; }
      case Instruction::GetElementPtr: { auto *g = cast<GEPOperator>(&I); x.k = IGep; x.a = op(g->getPointerOperand());
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value *ix = it.getOperand(); if (StructType *s = it.getStructTypeOrNull()) x.off += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); else { uint64_t sc = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) x.off += ci->getSExtValue() * (int64_t)sc; else x.idx.push_back({op(ix), (int64_t)sc, (uint8_t)widthOf(ix->getType())}); } }
        break; }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        static const std::map<unsigned, Op> m = {{Instruction::Add, OAdd}, {Instruction::Sub, OSub}, {Instruction::Mul, OMul}, {Instruction::UDiv, OUDiv}, {Instruction::SDiv, OSDiv}, {Instruction::URem, OURem}, {Instruction::SRem, OSRem}, {Instruction::Shl, OShl}, {Instruction::LShr, OLShr}, {Instruction::AShr, OAShr}, {Instruction::And, OAnd}, {Instruction::Or, OOr}, {Instruction::Xor, OXor}, {Instruction::FAdd, OFAdd}, {Instruction::FSub, OFSub}, {Instruction::FMul, OFMul}, {Instruction::FDiv, OFDiv}};
        x.k = IBin; x.op = m.at(I.getOpcode()); x.w = widthOf(I.getType()); x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); if (x.op >= OFAdd && x.w != 64) unsup("float arithmetic"); break; }
      case Instruction::FNeg: x.k = IFNeg; x.w = 64; x.a = op(I.getOperand(0)); break;
      case Instruction::ICmp: x.k = ICmp; x.w = widthOf(I.getOperand(0)->getType()); x.pred = cast<CmpInst>(&I)->getPredicate(); x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); break;
      case Instruction::FCmp: x.k = IFCmp; x.w = 64; x.pred = cast<CmpInst>(&I)->getPredicate(); x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); break;
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::AddrSpaceCast:
        x.k = ICast; x.w = widthOf(I.getType()); x.w2 = widthOf(I.getOperand(0)->getType()); x.a = op(I.getOperand(0));
        x.op = I.getOpcode() == Instruction::SExt ? OSExt : I.getOpcode() == Instruction::SIToFP ? OSIToFP : I.getOpcode() == Instruction::UIToFP ? OUIToFP : (I.getOpcode() == Instruction::FPToSI || I.getOpcode() == Instruction::FPToUI) ? OFPToSI : OZExt; break;
      case Instruction::Select: x.k = ISelect; x.w = widthOf(I.getType()); x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); x.c = op(I.getOperand(2)); break;
      case Instruction::Freeze: x.k = IFreeze; x.w = widthOf(I.getType()); x.a = op(I.getOperand(0)); break;
      case Instruction::Br: { auto *br = cast<BranchInst>(&I); if (br->isConditional()) { x.k = ICondBr; x.a = op(br->getCondition()); x.t1 = bid[br->getSuccessor(0)]; x.t2 = bid[br->getSuccessor(1)]; } else { x.k = IBr; x.t1 = bid[br->getSuccessor(0)]; } break; }
      case Instruction::Switch: { auto *sw = cast<SwitchInst>(&I); x.k = ISwitch; x.a = op(sw->getCondition()); x.w = widthOf(sw->getCondition()->getType()); x.t1 = bid[sw->getDefaultDest()]; for (auto c : sw->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), bid[c.getCaseSuccessor()]}); break; }
      case Instruction::Ret: x.k = IRet; if (I.getNumOperands()) { x.a = op(I.getOperand(0)); x.w = widthOf(I.getOperand(0)->getType()); } break;
      case Instruction::Unreachable: x.k = IUnreach; break;
      case Instruction::Call: {
        auto *c = cast<CallBase>(&I); x.k = ICall; x.w = widthOf(I.getType()); Function *cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
        if (cf) {
          Str nm = cf->getName().str();
          if (cf->isIntrinsic()) {
            Str s = nm; auto has = [&](const char *p) { return s.rfind(p, 0) == 0; };
            if (has("llvm.dbg") || has("llvm.lifetime") || has("llvm.assume") || has("llvm.experimental.noalias") || has("llvm.stacksave") || has("llvm.stackrestore")) { x.k = INop; break; }
            if (has("llvm.memcpy") || has("llvm.memmove")) { x.intr = XMemcpy; x.size = has("llvm.memcpy") ? 2 : 0; } else if (has("llvm.memset")) x.intr = XMemset; else if (has("llvm.expect")) x.intr = XExpect; else if (has("llvm.trap")) x.intr = XAbort;
            else if (has("llvm.umax")) x.intr = XUMax; else if (has("llvm.umin")) x.intr = XUMin; else if (has("llvm.smax")) x.intr = XSMax; else if (has("llvm.smin")) x.intr = XSMin;
            else unsup("unsupported intrinsic " + nm);
          } else {
            Str bn = baseName(cf); auto it = intrByName.find(nm); if (it == intrByName.end() && cf->isDeclaration()) it = intrByName.find(bn);
            if (it != intrByName.end() && (cf->isDeclaration() || bn.rfind("vf_", 0) == 0)) { x.intr = it->second; if (nm == "vf_dtoa_untied") x.size = 1; if (nm == "memcpy") x.size = 2; }
            else { if (iso && isBlockAlloc(cf, bn)) { Function *r = M->getFunction("vf_iso_alloc"); if (!r) die("harness has no vf_iso_alloc"); cf = r; } x.callee = getFunc(cf); }
          }
        } else if (isa<InlineAsm>(c->getCalledOperand())) { x.k = INop; break; } else x.a = op(c->getCalledOperand());
        if (cf && !x.intr && x.callee && x.callee->F->isDeclaration()) { Str nm = cf->getName().str(); bool sn = nm == "snprintf" || nm == "__builtin_snprintf", spf = nm == "sprintf";
          if (sn || spf) { unsigned fi = sn ? 2 : 1; StringRef fmt; if (!getConstantStringInfo(c->getArgOperand(fi), fmt)) unsup("format string is not a constant"); Str fs = fmt.str(); const char *to = nullptr; bool zx = false;
            if (fs == "%d" || fs == "%i" || fs == "%ld" || fs == "%lld" || fs == "%li" || fs == "%lli" || fs == "%zd" || fs == "%jd") to = "vf_snprintf_ld"; else if (fs == "%u" || fs == "%lu" || fs == "%llu" || fs == "%zu") { to = "vf_snprintf_ld"; zx = true; } else if (fs == "%.17g" || fs == "%.17lg" || fs == "%.18g" || fs == "%.19g" || fs == "%.20g") to = "vf_snprintf_g17"; else if (fs.size() > 1 && fs[0] == '%' && strchr("gfeGE", fs.back())) to = "vf_snprintf_gx"; else if (fs == "%s") to = "vf_snprintf_s"; else unsup("unmodelled format " + fs);
            Function *r = M->getFunction(to); if (!r) die(Str("no model ") + to); x.callee = getFunc(r); x.pred = zx ? 2 : 1; x.args.push_back(op(c->getArgOperand(0))); x.argw.push_back(64); if (sn) { x.args.push_back(op(c->getArgOperand(1))); } else { Opnd o; o.k = Val((uint64_t)1 << 30); x.args.push_back(o); } x.argw.push_back(64); if (c->arg_size() > fi + 1) { x.args.push_back(op(c->getArgOperand(fi + 1))); x.argw.push_back(widthOf(c->getArgOperand(fi + 1)->getType())); }
            break; } }
        for (auto &a : c->args()) { x.args.push_back(op(a)); x.argw.push_back(a->getType()->isMetadataTy() ? 0 : widthOf(a->getType())); }
        break; }
      default: unsup(Str("unsupported instruction ") + I.getOpcodeName() + " in " + fn->name);
      } } catch (Unsup &u) { x.k = IUnsup; x.why = u.m; }
      B.ins.push_back(std::move(x));
    }
  }
}

// ---------------------------------------------------------------- stepping
static inline Val rd(State &st, Frame &f, const Opnd &o, unsigned w) { if (o.reg >= 0) { const Val &v = f.r[o.reg]; if (v.e && st.pc.fix) { E e = S->subst(*st.pc.fix, v.e); if (e != v.e) return f.r[o.reg] = toV(e); } return v; } if (o.undef) { char b[32]; snprintf(b, 32, "undef.%u.%u", st.undefs++, w); return Val(P.namedVar(w, b)); } return o.k; }
static void enterBlk(State &st, Frame &f, int to) {
  int from = f.blk; auto &B = f.f->blks[to]; B.hits++;
  auto it = B.phis.find(from);
  if (it != B.phis.end()) { auto &v = it->second; if (v.size() == 1) f.r[v[0].dst] = rd(st, f, v[0].o, v[0].w); else { Val tmp[64]; size_t n = v.size(); if (n > 64) die("too many phis"); for (size_t i = 0; i < n; i++) tmp[i] = rd(st, f, v[i].o, v[i].w); for (size_t i = 0; i < n; i++) f.r[v[i].dst] = tmp[i]; } }
  f.blk = to; f.ip = 0;
}
static Val cmpV(unsigned pred, Val a, Val b, unsigned w) {
  if (!a.e && !b.e) { Op o; bool sw = false, neg = false; switch (pred) { case CmpInst::ICMP_EQ: o = OEq; break; case CmpInst::ICMP_NE: o = OEq; neg = true; break; case CmpInst::ICMP_ULT: o = OUlt; break; case CmpInst::ICMP_ULE: o = OUle; break; case CmpInst::ICMP_UGT: o = OUlt; sw = true; break; case CmpInst::ICMP_UGE: o = OUle; sw = true; break; case CmpInst::ICMP_SLT: o = OSlt; break; case CmpInst::ICMP_SLE: o = OSle; break; case CmpInst::ICMP_SGT: o = OSlt; sw = true; break; default: o = OSle; sw = true; } uint64_t r = sw ? foldBin(o, b.c, a.c, w) : foldBin(o, a.c, b.c, w); return Val((uint64_t)(neg ? !r : r)); }
  E x = toE(a, w), y = toE(b, w), r;
  switch (pred) { case CmpInst::ICMP_EQ: r = mkBin(OEq, x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkBin(OEq, x, y)); break; case CmpInst::ICMP_ULT: r = mkBin(OUlt, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(OUle, x, y); break; case CmpInst::ICMP_UGT: r = mkBin(OUlt, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(OUle, y, x); break; case CmpInst::ICMP_SLT: r = mkBin(OSlt, x, y); break; case CmpInst::ICMP_SLE: r = mkBin(OSle, x, y); break; case CmpInst::ICMP_SGT: r = mkBin(OSlt, y, x); break; default: r = mkBin(OSle, y, x); }
  return toV(r);
}
static Str cstr(State &st, uint64_t a) { Str s; for (int i = 0; i < 200; i++) { Val v = loadC(st, a + i, 1); if (v.e) stopUnsup("symbolic label"); if (!v.c) break; s += (char)v.c; } return s; }
static Inputs *inputs(State &st) { return st.in.own(); }
static Str uniq(State &st, const Str &n) { Inputs *in = inputs(st); int k = in->cnt[n]++; return k ? n + "#" + std::to_string(k) : n; }
static uint64_t doMalloc(State &st, uint64_t size) {
  if (size > (64u << 20)) { violation(st, "memory", "allocation larger than 64 MiB inside the bounds"); }
  ObjR o = mkObj(st.hp, (uint32_t)size, KHeap); o->seq = st.mallocs++; o->tag = st.tag; st.hp = (st.hp + size + 32 + 15) & ~15ULL; st.heap.push_back(o); st.live++; return o->base;
}
static bool branchOn(State &st, E c, bool &both) { // returns value; forks when both
  int t = S->may(st.pc, c); both = false;
  if (t == 0) return false;
  int f = S->may(st.pc, mkNot(c)); if (f == 0) return true;
  if (t < 0 || f < 0) { T.unknowns++; st.uncertain = true; }
  both = true; return true;
}
static void execCall(State &st, Frame &f, Ins &x);

static void linear(E e, uint64_t k, std::vector<std::pair<E, uint64_t>> &ts, uint64_t &c) { // e*k as a sum of terms with coefficients, modulo 2^w
  if (isK(e)) { c += k * e->val; return; }
  if (e->op == OAdd) { linear(e->a, k, ts, c); linear(e->b, k, ts, c); return; }
  if (e->op == OSub) { linear(e->a, k, ts, c); linear(e->b, 0 - k, ts, c); return; }
  if (e->op == OMul && isK(e->b)) { linear(e->a, k * e->b->val, ts, c); return; }
  if (e->op == OShl && isK(e->b) && e->b->val < e->w) { linear(e->a, k << e->b->val, ts, c); return; }
  for (auto &t : ts) if (t.first == e) { t.second += k; return; }
  ts.push_back({e, k});
}
// u is a sum whose terms split into multiples of k and a remainder that is known to be below k: a number read digit by digit
static bool divLinear(State &st, E u, uint64_t k, E &q, E &r) {
  unsigned w = u->w; uint64_t mk = maskw(w), c = 0; std::vector<std::pair<E, uint64_t>> ts; linear(u, 1, ts, c); if (ts.size() < 2 || ts.size() > 40) return false;
  Model m; if (!S->model(st.pc, m)) return false; EvalMemo memo; uint64_t x = evalE(u, m, memo), qc = x / k, rc = x % k; E qe = nullptr, re = nullptr; int nq = 0, nr = 0;
  for (auto &t : ts) { uint64_t f = t.second & mk; if (!f) continue; bool neg = f >> (w - 1) & 1; uint64_t a = neg ? (0 - f) & mk : f; bool inq = a % k == 0; uint64_t g = inq ? a / k : a; if (neg) g = (0 - g) & mk;
    uint64_t v = evalE(t.first, m, memo); (inq ? qc : rc) -= g * v; E &s = inq ? qe : re; E p = mkBin(OMul, t.first, P.K(g, w)); s = s ? mkBin(OAdd, s, p) : p; (inq ? nq : nr)++; }
  if (!nq || !nr || ((qc * k + rc - c) & mk)) return false;
  q = mkBin(OAdd, qe, P.K(qc, w)); r = mkBin(OAdd, re, P.K(rc, w));
  return S->may(st.pc, mkNot(mkBin(OUle, r, P.K(k - 1, w)))) == 0 && S->may(st.pc, mkNot(mkBin(OUle, q, P.K(mk / k - 1, w)))) == 0;
}
// An address in its shortest form: terms that cancel, and functions of one byte as tables.
static E tidy(E e) {
  if (isK(e) || e->op == OVar) return e; static std::unordered_map<E, E> memo; auto it = memo.find(e); if (it != memo.end()) return it->second;
  E r = e; unsigned w = e->w; uint64_t c = 0; std::vector<std::pair<E, uint64_t>> ts; linear(e, 1, ts, c); size_t live = 0; for (auto &t : ts) live += (t.second & maskw(w)) != 0;
  if (live < ts.size()) { r = nullptr; for (auto &t : ts) { uint64_t f = t.second & maskw(w); if (!f) continue; E p = mkBin(OMul, t.first, P.K(f, w)); r = r ? mkBin(OAdd, r, p) : p; } r = r ? mkBin(OAdd, r, P.K(c, w)) : P.K(c, w); }
  if (!isK(r) && r->vars->size() == 1 && r->op != OTab) { uint32_t v = (*r->vars)[0]; E ix = P.varExpr[v];
    if (ix->w == 8) { Table t(256); Model m; std::set<uint64_t> vals; for (int i = 0; i < 256; i++) { m[v] = i; EvalMemo em; t[i] = evalE(r, m, em); vals.insert(t[i]); } if (vals.size() == 1) r = P.K(t[0], w); else if (vals.size() <= 32) r = mkTab(ix, w, t); } }
  memo[e] = r; return r;
}
// A size or position made of few-valued functions of single bytes (a table of lengths): the path is split on them, so that
// what is later placed behind it has a known address.
static void pin(State &st, E e) {
  if (isK(e) || e->vars->empty()) return; static std::unordered_map<E, std::vector<E>> memo; auto it = memo.find(e);
  if (it == memo.end()) { std::vector<E> out; uint64_t c = 0; std::vector<std::pair<E, uint64_t>> ts; linear(e, 1, ts, c); size_t n = 0;
    for (auto &t : ts) { if (!(t.second & maskw(e->w))) continue; n++; E x = t.first; while (x->op == OZExt || x->op == OSExt) x = x->a; if (isK(x) || x->vars->size() != 1) continue; uint32_t v = (*x->vars)[0]; E ix = P.varExpr[v]; if (ix->w != 8 || x == ix) continue;
      Model m; std::set<uint64_t> vals; for (int i = 0; i < 256 && vals.size() <= 8; i++) { m[v] = i; EvalMemo em; vals.insert(evalE(x, m, em)); } if (vals.size() <= 8) out.push_back(x); }
    if (out.size() != n) out.clear(); it = memo.emplace(e, out).first; }
  for (E t : it->second) { Val v = toV(S->subst(st.pc, t)); if (v.e) conc(st, v, t->w, "length"); }
}
// Division by a constant: quotient and remainder as variables with their defining constraints (adders instead of a divider).
static E divByConst(State &st, Op op, E e, uint64_t k) {
  unsigned w = e->w; bool sg = op == OSDiv || op == OSRem; E zero = P.K(0, w), neg = nullptr, u = e;
  if (sg) { neg = mkBin(OSlt, e, zero); if (S->may(st.pc, neg) == 0) neg = nullptr; else if (S->may(st.pc, mkNot(neg)) == 0) u = mkBin(OSub, zero, e); else u = mkIte(neg, mkBin(OSub, zero, e), e); }
  if (isK(u)) return mkBin(op, e, P.K(k, w));
  { E q, r; if (divLinear(st, u, k, q, r)) { E res = op == OUDiv || op == OSDiv ? q : r; return neg ? mkIte(neg, mkBin(OSub, zero, res), res) : res; } }
  char nm[64]; snprintf(nm, 64, "q.%u.%llx", u->id, (unsigned long long)k); E q = P.namedVar(w, nm); nm[0] = 'r'; E r = P.namedVar(w, nm);
  Model m; bool have = S->model(st.pc, m);
  S->add(st.pc, mkBin(OEq, u, mkBin(OAdd, mkBin(OMul, q, P.K(k, w)), r))); S->add(st.pc, mkBin(OUle, r, P.K(k - 1, w))); S->add(st.pc, mkBin(OUle, q, P.K(maskw(w) / k, w)));
  if (have) { for (auto v : *u->vars) if (!m.count(v)) m[v] = 0; EvalMemo memo; uint64_t x = evalE(u, m, memo); m[(*q->vars)[0]] = x / k; m[(*r->vars)[0]] = x % k; S->hint(st.pc, m); }
  E res = op == OUDiv || op == OSDiv ? q : r;
  return neg ? mkIte(neg, mkBin(OSub, zero, res), res) : res;
}
static void step(State &st) {
  Frame &f = *st.fr.back().own();
  Blk &B = f.f->blks[f.blk]; Ins &x = B.ins[f.ip];
  st.steps++; S->at = x.loc;
  switch (x.k) {
  case INop: f.ip++; return;
  case ILoad: { Val a = rd(st, f, x.a, 64); Val v = loadV(st, a, (x.w + 7) / 8); if (x.w < 8 || (x.w % 8)) { if (v.e) v = toV(mkExtract(v.e, 0, x.w)); else v.c &= maskw(x.w); } f.r[x.dst] = v; f.ip++; return; }
  case IStore: { Val p = rd(st, f, x.b, 64); uint64_t a = p.e ? conc(st, p, 64, "store address") : p.c; Val v = rd(st, f, x.a, x.w); if (v.e && x.w >= 32) { pin(st, v.e); v = rd(st, *st.fr.back().own(), x.a, x.w); } uint32_t n = (x.w + 7) / 8; if (v.e && x.w % 8) v = toV(mkZExt(v.e, n * 8)); storeC(st, a, v, n); f.ip++; return; }
  case IAlloca: { uint32_t sz = x.size ? x.size : 1; if (x.off) { Val n = rd(st, f, x.a, x.w); uint64_t c = n.e ? conc(st, n, x.w, "array length") : n.c; if (c > (1u << 24)) violation(st, "memory", "variable-length array of a length far outside the stack"); sz = c * x.size ? c * x.size : 1; } ObjR o = mkObj(st.sp, sz, KStack); st.sp = (st.sp + sz + 32 + 15) & ~15ULL; st.stk.push_back(o); f.r[x.dst] = Val(o->base); { uint64_t pk = st.sp - SBASE + 64 * st.fr.size(); if (pk > st.peak) st.peak = pk; } f.ip++; return; }
  case IGep: { Val a = rd(st, f, x.a, 64); if (!a.e) { bool sym = false; uint64_t r = a.c + x.off; for (auto &g : x.idx) { Val i = rd(st, f, g.o, g.w); if (i.e) { sym = true; break; } r += (uint64_t)(sextw(i.c, g.w) * g.scale); } if (!sym) { f.r[x.dst] = Val(r); f.ip++; return; } }
    E r = mkBin(OAdd, toE(a, 64), P.K(x.off, 64)); for (auto &g : x.idx) { Val i = rd(st, f, g.o, g.w); E ie = toE(i, g.w); ie = g.w < 64 ? mkSExt(ie, 64) : ie; r = mkBin(OAdd, r, mkBin(OMul, ie, P.K(g.scale, 64))); } f.r[x.dst] = toV(tidy(r)); f.ip++; return; }
  case IBin: { Val a = rd(st, f, x.a, x.w), b = rd(st, f, x.b, x.w);
    if (x.op == OUDiv || x.op == OSDiv || x.op == OURem || x.op == OSRem) { if (!b.e && b.c == 0) violation(st, "arith", "division by zero"); if (b.e) { E z = mkBin(OEq, b.e, P.K(0, x.w)); if (S->may(st.pc, z)) { PathCond p2 = st.pc; S->add(p2, z); report(st, p2, "arith", "division by zero"); S->add(st.pc, mkNot(z)); } } }
    if (a.e && !b.e && b.c > 1 && a.e->vars->size() && !(a.e->vars->size() == 1 && P.varExpr[(*a.e->vars)[0]]->w == 8) && (x.op == OUDiv || x.op == OURem || ((x.op == OSDiv || x.op == OSRem) && sextw(b.c, x.w) > 1))) { f.r[x.dst] = toV(divByConst(st, x.op, a.e, b.c)); f.ip++; return; }
    if (!a.e && !b.e) f.r[x.dst] = Val(foldBin(x.op, a.c, b.c, x.w)); else f.r[x.dst] = toV(mkBin(x.op, toE(a, x.w), toE(b, x.w))); f.ip++; return; }
  case IFNeg: { Val a = rd(st, f, x.a, 64); f.r[x.dst] = a.e ? toV(mkBin(OXor, a.e, P.K(1ULL << 63, 64))) : Val(a.c ^ (1ULL << 63)); f.ip++; return; }
  case ICmp: f.r[x.dst] = cmpV(x.pred, rd(st, f, x.a, x.w), rd(st, f, x.b, x.w), x.w); f.ip++; return;
  case IFCmp: { E a = toE(rd(st, f, x.a, 64), 64), b = toE(rd(st, f, x.b, 64), 64); E uno = mkBin(OFUno, a, b), r;
    switch (x.pred) { case CmpInst::FCMP_OEQ: r = mkBin(OFOeq, a, b); break; case CmpInst::FCMP_UNE: r = mkNot(mkBin(OFOeq, a, b)); break; case CmpInst::FCMP_ONE: r = mkAndB(mkNot(mkBin(OFOeq, a, b)), mkNot(uno)); break; case CmpInst::FCMP_UEQ: r = mkOrB(mkBin(OFOeq, a, b), uno); break;
      case CmpInst::FCMP_OLT: r = mkBin(OFOlt, a, b); break; case CmpInst::FCMP_OLE: r = mkBin(OFOle, a, b); break; case CmpInst::FCMP_OGT: r = mkBin(OFOlt, b, a); break; case CmpInst::FCMP_OGE: r = mkBin(OFOle, b, a); break;
      case CmpInst::FCMP_ULT: r = mkNot(mkBin(OFOle, b, a)); break; case CmpInst::FCMP_ULE: r = mkNot(mkBin(OFOlt, b, a)); break; case CmpInst::FCMP_UGT: r = mkNot(mkBin(OFOle, a, b)); break; case CmpInst::FCMP_UGE: r = mkNot(mkBin(OFOlt, a, b)); break;
      case CmpInst::FCMP_UNO: r = uno; break; case CmpInst::FCMP_ORD: r = mkNot(uno); break; default: stopUnsup("fcmp"); }
    f.r[x.dst] = toV(r); f.ip++; return; }
  case ICast: { Val a = rd(st, f, x.a, x.w2); Val r; 
    if (x.op == OSIToFP || x.op == OUIToFP) { if (x.w != 64) stopUnsup("float"); r = toV(mkF(x.op, toE(a, x.w2), nullptr)); }
    else if (x.op == OFPToSI) { if (a.e) r = toV(P.raw(OFPToSI, x.w, 0, a.e)); else { double d; memcpy(&d, &a.c, 8); r = Val((uint64_t)(int64_t)d & maskw(x.w)); } }
    else if (!a.e) { uint64_t v = a.c & maskw(x.w2); if (x.op == OSExt) v = (uint64_t)sextw(v, x.w2); r = Val(v & maskw(x.w)); }
    else if (x.w < x.w2) r = toV(mkExtract(a.e, 0, x.w)); else if (x.w == x.w2) r = a; else r = toV(x.op == OSExt ? mkSExt(a.e, x.w) : mkZExt(a.e, x.w));
    f.r[x.dst] = r; f.ip++; return; }
  case ISelect: { Val c = rd(st, f, x.a, 1); Val a = rd(st, f, x.b, x.w), b = rd(st, f, x.c, x.w);
    if (c.e && !a.e && !b.e && x.w > 1 && a.c != b.c && f.f->repo) { // a choice between constants: a branch, so that it does not tie inputs together
      bool both; bool t = branchOn(st, c.e, both); int dst = x.dst;
      if (both) { State *o = cloneS(st); S->add(o->pc, mkNot(c.e)); o->depth++; T.forks++; Frame &g = *o->fr.back().own(); g.r[dst] = b; g.ip++; work.push_back(o); S->add(st.pc, c.e); st.depth++; Frame &h = *st.fr.back().own(); h.r[dst] = a; h.ip++; return; }
      Frame &h = *st.fr.back().own(); h.r[dst] = t ? a : b; h.ip++; return; }
    f.r[x.dst] = c.e ? toV(mkIte(c.e, toE(a, x.w), toE(b, x.w))) : (c.c & 1) ? a : b; f.ip++; return; }
  case IFreeze: f.r[x.dst] = rd(st, f, x.a, x.w); f.ip++; return;
  case IBr: enterBlk(st, f, x.t1); return;
  case ICondBr: { Val c = rd(st, f, x.a, 1); if (!c.e) { enterBlk(st, f, (c.c & 1) ? x.t1 : x.t2); return; }
    bool both; bool t = branchOn(st, c.e, both);
    if (both) { State *o = cloneS(st); S->add(o->pc, mkNot(c.e)); o->depth++; T.forks++; Frame &g = *o->fr.back().own(); enterBlk(*o, g, x.t2); work.push_back(o); S->add(st.pc, c.e); st.depth++; Frame &h = *st.fr.back().own(); enterBlk(st, h, x.t1); return; }
    enterBlk(st, f, t ? x.t1 : x.t2); return; }
  case ISwitch: { Val v = rd(st, f, x.a, x.w); if (!v.e) { for (auto &c : x.cases) if (c.first == v.c) { enterBlk(st, f, c.second); return; } enterBlk(st, f, x.t1); return; }
    std::vector<std::pair<int, E>> alts; E dflt = P.K(1, 1);
    for (auto &c : x.cases) { E eq = mkBin(OEq, v.e, P.K(c.first, x.w)); dflt = mkAndB(dflt, mkNot(eq)); bool done = false; for (auto &a : alts) if (a.first == c.second) { a.second = mkOrB(a.second, eq); done = true; break; } if (!done) alts.push_back({c.second, eq}); }
    bool merged = false; for (auto &a : alts) if (a.first == x.t1) { a.second = mkOrB(a.second, dflt); merged = true; } if (!merged) alts.push_back({x.t1, dflt});
    std::vector<std::pair<int, E>> ok; for (auto &a : alts) { int r = S->may(st.pc, a.second); if (r < 0) { T.unknowns++; st.uncertain = true; } if (r != 0) ok.push_back(a); }
    if (ok.empty()) { T.unknowns++; throw PathEnd(); }
    for (size_t i = 1; i < ok.size(); i++) { State *o = cloneS(st); S->add(o->pc, ok[i].second); o->depth++; T.forks++; enterBlk(*o, *o->fr.back().own(), ok[i].first); work.push_back(o); }
    if (ok.size() > 1) { S->add(st.pc, ok[0].second); st.depth++; } enterBlk(st, *st.fr.back().own(), ok[0].first); return; }
  case IRet: { Val v; if (x.w) v = rd(st, f, x.a, x.w); while (st.stk.size() > f.stackMark) st.stk.pop_back(); /* stack addresses are never reused */
    int dst = f.retDst; st.fr.pop_back(); if (st.fr.empty()) return; if (dst == -2) return; Frame &g = *st.fr.back().own(); if (dst >= 0) g.r[dst] = v; g.ip++; return; }
  case IUnsup: stopUnsup(x.why); return;
  case IUnreach: violation(st, "ub", "execution reaches an unreachable point"); return;
  case ICall: execCall(st, f, x); return;
  default: die("step");
  }
}
static void setDst(Frame &f, Ins &x, Val v) { if (x.dst >= 0) f.r[x.dst] = v; }
static void assertTrue(State &st, Val c, unsigned w, const Str &msg) {
  T.assertsChecked++; assertHits[msg]++;
  if (!c.e) { if (!(c.c & maskw(w))) { report(st, st.pc, "assert", msg); throw PathEnd(); } return; }
  E bad = mkBin(OEq, c.e, P.K(0, w)); T.assertQ++; int r = S->may(st.pc, bad);
  if (r < 0) { T.unknowns++; st.uncertain = true; return; }
  if (r == 1) { PathCond p2 = st.pc; S->add(p2, bad); report(st, p2, "assert", msg); st.bad = true; }
  E good = mkNot(bad); if (r == 1) { if (S->may(st.pc, good) == 0) throw PathEnd(); S->add(st.pc, good); }
}
static void execCall(State &st, Frame &f, Ins &x) {
  auto arg = [&](int i) { return rd(st, f, x.args[i], x.argw[i]); };
  auto cArg = [&](int i) { Val v = arg(i); return v.e ? conc(st, v, x.argw[i], "argument") : v.c; };
  if (!x.intr) {
    Func *c = x.callee; if (!c) { Val t = rd(st, f, x.a, 64); uint64_t a = t.e ? conc(st, t, 64, "call target") : t.c; for (auto &kv : funcAddr) if (kv.second == a) { c = getFunc(kv.first); break; } if (!c) violation(st, "memory", "call through an invalid function pointer"); }
    if (c->F->isDeclaration()) { stopUnsup("call to unmodelled external function " + c->F->getName().str()); }
    if (!c->decoded) decode(c); if (c->blks.empty()) die("empty function"); if (st.fr.size() > 40000) violation(st, "memory", "unbounded recursion");
    Frame *n = new Frame(); n->f = c; n->r.resize(c->nregs); n->stackMark = st.stk.size(); n->spMark = st.sp; n->retDst = x.dst; n->callLoc = x.loc; c->calls++;
    for (int i = 0; i < c->nargs; i++) { Val v = i < (int)x.args.size() ? arg(i) : Val((uint64_t)0); if (x.pred && i < (int)x.args.size() && x.argw[i] < c->argw[i]) v = v.e ? toV(x.pred == 2 ? mkZExt(v.e, c->argw[i]) : mkSExt(v.e, c->argw[i])) : Val((x.pred == 2 ? v.c : (uint64_t)sextw(v.c, x.argw[i])) & maskw(c->argw[i])); n->r[i] = v; }
    c->blks[0].hits++; st.fr.push_back(Ref<Frame>(n)); { uint64_t pk = st.sp - SBASE + 64 * st.fr.size(); if (pk > st.peak) st.peak = pk; } return;
  }
  switch (x.intr) {
  case XNop: break;
  case XExpect: setDst(f, x, arg(0)); break;
  case XUMax: case XUMin: case XSMax: case XSMin: { E a = toE(arg(0), x.w), b = toE(arg(1), x.w); E lt = mkBin(x.intr == XUMax || x.intr == XUMin ? OUlt : OSlt, a, b); bool mx = x.intr == XUMax || x.intr == XSMax; setDst(f, x, toV(mx ? mkIte(lt, b, a) : mkIte(lt, a, b))); break; }
  case XSym: { uint64_t p = cArg(0), n = cArg(1), nm = cArg(2); Str name = uniq(st, cstr(st, nm)); Input in; in.kind = 'S'; in.name = name; for (uint64_t i = 0; i < n; i++) { E e = P.namedVar(8, name + "[" + std::to_string(i) + "]"); in.es.push_back(e); in.ws.push_back(8); storeC(st, p + i, Val(e), 1); } inputs(st)->v.push_back(in); break; }
  case XChoose: { // eager fork over lo..hi
    uint64_t lo = cArg(0), hi = cArg(1); Str name = uniq(st, cstr(st, cArg(2))); if ((int64_t)hi < (int64_t)lo) throw PathEnd();
    E v = P.namedVar(32, name); for (uint64_t k = hi; k + 1 > lo + 1; k--) { State *o = cloneS(st); S->add(o->pc, mkBin(OEq, v, P.K(k, 32))); Input in; in.kind = 'C'; in.name = name; in.es.push_back(v); in.ws.push_back(32); inputs(*o)->v.push_back(in); Frame &g = *o->fr.back().own(); setDst(g, x, Val(k)); g.ip++; o->depth++; T.forks++; work.push_back(o); }
    S->add(st.pc, mkBin(OEq, v, P.K(lo, 32))); Input in; in.kind = 'C'; in.name = name; in.es.push_back(v); in.ws.push_back(32); inputs(st)->v.push_back(in); setDst(*st.fr.back().own(), x, Val(lo)); st.fr.back()->ip++; return; }
  case XUpto: { // symbolic 32-bit value in lo..hi, kept symbolic
    uint64_t lo = cArg(0), hi = cArg(1); Str name = uniq(st, cstr(st, cArg(2))); E v = P.namedVar(32, name); S->add(st.pc, mkBin(OSle, P.K(lo, 32), v)); S->add(st.pc, mkBin(OSle, v, P.K(hi, 32))); Input in; in.kind = 'C'; in.name = name; in.es.push_back(v); in.ws.push_back(32); inputs(st)->v.push_back(in); setDst(f, x, Val(v)); break; }
  case XAssume: { Val c = arg(0); if (!c.e) { if (!(c.c & maskw(x.argw[0]))) { T.assumed++; throw PathEnd(); } break; } E g = mkNot(mkBin(OEq, c.e, P.K(0, x.argw[0]))); int r = S->may(st.pc, g); if (r == 0) { T.assumed++; throw PathEnd(); } S->add(st.pc, g); break; }
  case XAssert: { Str msg = cstr(st, cArg(1)); assertTrue(st, arg(0), x.argw[0], msg); break; }
  case XFail: { Str msg = cstr(st, cArg(0)); report(st, st.pc, "assert", msg); throw PathEnd(); }
  case XReach: { Str l = cstr(st, cArg(0)); reachHits[l]++; st.trace.push_back({l, Val((uint64_t)0)}); break; }
  case XTrace: { fprintf(stderr, "TRACE %s", cstr(st, cArg(0)).c_str()); for (size_t i = 1; i < x.args.size(); i++) { Val v = arg(i); fprintf(stderr, " %s", v.e ? show(v.e).c_str() : std::to_string(v.c).c_str()); } fprintf(stderr, "\n"); break; }
  case XMalloc: { uint64_t n = cArg(0); st.mem += n; setDst(*st.fr.back().own(), x, Val(doMalloc(st, n))); break; }
  case XFree: { uint64_t p = cArg(0); if (!p) break; int ix; Obj *o = p >= HBASE ? findIn(st.heap, p, &ix) : nullptr; if (!o || o->base != p) violation(st, "memory", "free of a pointer that is not a heap block"); if (o->freed) violation(st, "memory", "double free"); if (st.tag && o->tag && o->tag != st.tag) violation(st, "memory", "free of memory owned by another thread's allocator"); o = st.heap[ix].own(); o->freed = true; o->pg.clear(); st.live--; break; }
  case XLive: setDst(f, x, Val((uint64_t)(uint32_t)st.live)); break;
  case XPeak: { uint64_t now = st.sp - SBASE + 64 * st.fr.size(); setDst(f, x, Val(st.peak > now ? st.peak - now : 0)); st.peak = 0; break; }
  case XCost: setDst(f, x, Val(st.steps + st.bulk)); break;
  case XMem: setDst(f, x, Val(st.mem)); break;
  case XGap: st.hp = (st.hp + (1ULL << 34)) & ~15ULL; break; // later blocks lie far away
  case XTag: st.tag = (int)cArg(0); break;
  case XGuard: st.guard = (int)cArg(0); break;
  case XFrozen: { // vf_freeze(k): k=1: every live heap block becomes read-only (blocks allocated later stay writable); k=0: undo
    int k = (int)cArg(0); for (auto &o : st.heap) if (!o->freed && o->roDepth != k) o.own()->roDepth = k; break; }
  case XIsConc: setDst(f, x, Val((uint64_t)(arg(0).e != nullptr))); break;
  case XObjSize: { uint64_t p = cArg(0); int ix; Obj *o = p >= HBASE ? findIn(st.heap, p, &ix) : nullptr; setDst(f, x, Val((uint64_t)(o && !o->freed && p <= o->base + o->size ? o->base + o->size - p : 0))); break; }
  case XNote: { Val v = arg(0); if (v.e) v = toV(mkZExt(v.e, 64)); st.trace.push_back({"=", v}); break; }
  case XMemset: { uint64_t p = cArg(0), n = cArg(2); st.bulk += n; Val v = arg(1); if (v.e) v = toV(mkExtract(v.e, 0, 8)); else v.c &= 255; if (n) { std::vector<ObjR> *vec; int ix; const char *err; Obj *o = lookup(st, p, n, true, &vec, &ix, &err); if (!o) violation(st, "memory", err); o = (*vec)[ix].own(); for (uint64_t i = 0; i < n; i++) putByte(o, p - o->base + i, v); } setDst(f, x, Val(p)); break; }
  case XMemcpy: { uint64_t n = cArg(2); st.bulk += n; uint64_t d = cArg(0); Val sv = arg(1);
    if (n && n < (1u << 26)) {
      std::vector<Val> tmp(n);
      if (sv.e) { bool viaTab = sv.e->vars->size() == 1 && P.varExpr[(*sv.e->vars)[0]]->w == 8; if (!viaTab) sv = Val(conc(st, sv, 64, "memcpy source")); }
      if (sv.e) { for (uint64_t i = 0; i < n; i++) { E a = mkBin(OAdd, toE(sv, 64), P.K(i, 64)); tmp[i] = loadV(st, toV(a), 1); } }
      else { std::vector<ObjR> *vec; int ix; const char *err; Obj *o = lookup(st, sv.c, n, false, &vec, &ix, &err); if (!o) violation(st, "memory", err); if (x.size == 2 && sv.c != d && sv.c < d + n && d < sv.c + n) violation(st, "memory", "memcpy between overlapping regions"); uint64_t off = sv.c - o->base; for (uint64_t i = 0; i < n; i++) {
          Page *pg = o->pg[(off + i) / PG].p; unsigned k = (off + i) % PG; uint64_t bit = 1ULL << k; if ((pg->init & bit)) tmp[i] = (pg->symm & bit) ? Val(pg->s[k]) : Val((uint64_t)pg->d[k]); else { tmp[i] = byteAt(st, vec, ix, o, off + i); o = (*vec)[ix].p; } } }
      std::vector<ObjR> *vec; int ix; const char *err; Obj *o = lookup(st, d, n, true, &vec, &ix, &err); if (!o) violation(st, "memory", err);
      o = (*vec)[ix].own(); for (uint64_t i = 0; i < n; i++) putByte(o, d - o->base + i, tmp[i]);
    } else if (n) violation(st, "memory", "copy of a length far outside every object");
    setDst(*st.fr.back().own(), x, Val(d)); break; }
  case XAbort: violation(st, "abort", "abort/trap reached"); break;
  case XDecimal: { // vf_decimal_is(long n, const char *text, int len): by construction of the harness, text is the decimal text of n
    Val nv = arg(0); uint64_t p = cArg(1), n = cArg(2); if (!nv.e) break; UfD u; u.v = nv; for (uint64_t i = 0; i < n; i++) u.bytes.push_back(toE(loadC(st, p + i, 1), 8)); st.dec.push_back(u); break; }
  case XIntToDec: { // int vf_itoa(char *out, long n): decimal text of n (as printf %ld), NUL-terminated; returns its length
    uint64_t d = cArg(0); Val nv = arg(1);
    if (!nv.e) { char b[32]; int l = snprintf(b, 32, "%lld", (long long)nv.c); for (int i = 0; i <= l; i++) storeC(st, d + i, Val((uint64_t)(uint8_t)b[i]), 1); setDst(*st.fr.back().own(), x, Val((uint64_t)l)); break; }
    { const UfD *k = nullptr; for (auto &u : st.dec) if (S->subst(st.pc, u.v.e) == nv.e) k = &u; if (k) { size_t l = k->bytes.size(); for (size_t i = 0; i < l; i++) storeC(st, d + i, toV(k->bytes[i]), 1); storeC(st, d + l, Val((uint64_t)0), 1); setDst(*st.fr.back().own(), x, Val((uint64_t)l)); break; } }
    E n = nv.e; E neg = mkBin(OSlt, n, P.K(0, 64)); bool first = true; struct Alt { int sign, digits; }; std::vector<Alt> alts;
    static const uint64_t p10[20] = {1ULL, 10ULL, 100ULL, 1000ULL, 10000ULL, 100000ULL, 1000000ULL, 10000000ULL, 100000000ULL, 1000000000ULL, 10000000000ULL, 100000000000ULL, 1000000000000ULL, 10000000000000ULL, 100000000000000ULL, 1000000000000000ULL, 10000000000000000ULL, 100000000000000000ULL, 1000000000000000000ULL, 10000000000000000000ULL};
    E mag = mkIte(neg, mkBin(OSub, P.K(0, 64), n), n);
    std::vector<std::pair<Alt, E>> ok;
    for (int s = 0; s < 2; s++) for (int k = 1; k <= 19; k++) { E c = s ? neg : mkNot(neg); if (k > 1) c = mkAndB(c, mkBin(OUle, P.K(p10[k - 1], 64), mag)); c = mkAndB(c, mkBin(OUlt, mag, P.K(p10[k], 64))); if (s && k == 1) c = mkAndB(c, mkBin(OUle, P.K(1, 64), mag)); int r = S->may(st.pc, c); if (r) ok.push_back({{s, k}, c}); }
    std::vector<State *> ss; for (size_t i = 1; i < ok.size(); i++) { State *o = cloneS(st); o->depth++; T.forks++; ss.push_back(o); }
    for (size_t i = ok.size(); i-- > 0;) { State *o = i ? ss[i - 1] : &st; S->add(o->pc, ok[i].second); int s = ok[i].first.sign, k = ok[i].first.digits; uint64_t q = d; if (s) storeC(*o, q++, Val((uint64_t)'-'), 1);
      Model hm; bool haveH = S->model(o->pc, hm); uint64_t hv = 0; if (haveH) { for (auto v : *n->vars) if (!hm.count(v)) hm[v] = 0; EvalMemo hmm; hv = evalE(n, hm, hmm); if (s) hv = 0 - hv; }
      E acc = P.K(0, 64); char nm[64]; uint32_t u = o->dtoa; for (int j = 0; j < k; j++) { snprintf(nm, 64, "dig.%u.%d.%d.%d", u, s, k, j); E c = P.namedVar(8, nm); if (haveH) hm[(*c->vars)[0]] = '0' + hv / p10[k - 1 - j] % 10; S->add(o->pc, mkBin(OUle, P.K('0' + (j == 0 && k > 1), 8), c)); S->add(o->pc, mkBin(OUle, c, P.K('9', 8)));
        E dg = mkBin(OAdd, mkSExt(c, 64), P.K((uint64_t)-48, 64)); acc = mkBin(OAdd, mkBin(OMul, acc, P.K(10, 64)), dg); storeC(*o, q++, Val(c), 1); }
      storeC(*o, q, Val((uint64_t)0), 1); S->add(o->pc, mkBin(OEq, n, s ? mkBin(OSub, P.K(0, 64), acc) : acc)); if (haveH) S->hint(o->pc, hm); o->dtoa++;
      Frame &g = *o->fr.back().own(); setDst(g, x, Val((uint64_t)(s + k))); if (i) { g.ip++; work.push_back(o); } (void)first; }
    break; }
  case XDblToDec: { // int vf_dtoa(char *out, double d): "%.17g"
    uint64_t d = cArg(0); Val nv = arg(1);
    if (!nv.e) { double v; memcpy(&v, &nv.c, 8); char b[64]; int l = snprintf(b, 64, "%.17g", v); for (int i = 0; i <= l; i++) storeC(st, d + i, Val((uint64_t)(uint8_t)b[i]), 1); setDst(*st.fr.back().own(), x, Val((uint64_t)l)); break; }
    E e = nv.e; E expn = mkExtract(e, 52, 11), frac = mkExtract(e, 0, 52), sg = mkExtract(e, 63, 1); E isInf = mkAndB(mkBin(OEq, expn, P.K(0x7ff, 11)), mkBin(OEq, frac, P.K(0, 52))), isNan = mkAndB(mkBin(OEq, expn, P.K(0x7ff, 11)), mkNot(mkBin(OEq, frac, P.K(0, 52)))); E fin = mkNot(mkBin(OEq, expn, P.K(0x7ff, 11)));
    static const char *shape[] = {"inf", "nan", "D", "DDDDDDDDDDDDDDDDD", "D.D", "0.000DDDDDDDDDDDDDDDDD", "D.DDDDDDDDDDDDDDDDe-DDD", "De+DD", 0};
    std::vector<std::pair<Str, E>> ok; for (int s = 0; s < 2; s++) for (int i = 0; shape[i]; i++) { E c = mkAndB(i == 0 ? isInf : i == 1 ? isNan : fin, s ? sg : mkNot(sg)); if (S->may(st.pc, c)) ok.push_back({(s ? "-" : "") + Str(shape[i]), c}); }
    std::vector<State *> ss; for (size_t i = 1; i < ok.size(); i++) { State *o = cloneS(st); o->depth++; T.forks++; ss.push_back(o); }
    for (size_t i = ok.size(); i-- > 0;) { State *o = i ? ss[i - 1] : &st; S->add(o->pc, ok[i].second); const Str &t = ok[i].first; UfD uf; char nm[64]; bool lead = true;
      for (size_t j = 0; j < t.size(); j++) { E c; if (t[j] == 'D') { snprintf(nm, 64, "fdig.%u.%zu.%zu", o->dtoa, i, j); c = P.namedVar(8, nm); S->add(o->pc, mkBin(OUle, P.K('0' + (lead && t.size() > (size_t)(t[0] == '-') + 1), 8), c)); S->add(o->pc, mkBin(OUle, c, P.K('9', 8))); lead = false; } else { c = P.K((uint8_t)t[j], 8); if (t[j] == 'e') lead = true; } uf.bytes.push_back(c); storeC(*o, d + j, toV(c), 1); }
      storeC(*o, d + t.size(), Val((uint64_t)0), 1); if (!x.size) { uf.v = nv; o->uf.push_back(uf); } o->dtoa++;
      Frame &g = *o->fr.back().own(); setDst(g, x, Val((uint64_t)t.size())); if (i) { g.ip++; work.push_back(o); } }
    break; }
  case XUfDouble: { // double vf_uf_double(const char *text, size_t len): value of the text; same text, same value
    uint64_t p = cArg(0), n = cArg(1); std::vector<E> bs; bool all = true; for (uint64_t i = 0; i < n; i++) { E v = S->subst(st.pc, toE(loadC(st, p + i, 1), 8)); if (!isK(v)) all = false; bs.push_back(v); }
    Val r; bool found = false; for (auto &u : st.uf) { bool same = u.bytes.size() == n; for (size_t i = 0; same && i < n; i++) same = u.bytes[i] == bs[i] || S->subst(st.pc, u.bytes[i]) == bs[i]; if (same) { r = u.v; found = true; break; } }
    if (all && !found) { Str t; for (E b : bs) t += (char)b->val; double v = strtod(t.c_str(), nullptr); uint64_t u; memcpy(&u, &v, 8); setDst(*st.fr.back().own(), x, Val(u)); break; }
    if (!found) { UfD u; u.bytes = bs; Str nm = "dbl"; for (E b : bs) nm += "." + std::to_string(b->id); r = Val(P.namedVar(64, nm)); u.v = r; st.uf.push_back(u); }
    setDst(*st.fr.back().own(), x, r); break; }
  default: die("intrinsic");
  }
  st.fr.back().own()->ip++;
}
// run one state to its end (siblings go to `work`)
static bool timeUp() { double t = now() - tStart; return t > tLimit || (grace > 0 && sh->found && t > sh->found / 10.0 + grace); }
static bool stopNow() { static int k = 0; if ((++k & 15) == 0 || (grace > 0 && sh->found)) return timeUp(); return false; }
// Witnesses: models of completed paths with the trace they must produce natively (reservoir sample).
static std::vector<Str> witnesses; static uint64_t witSeen = 0; static uint64_t rngS = 88172645463325252ULL; static size_t maxWit = 3;
static uint64_t rnd() { rngS ^= rngS << 13; rngS ^= rngS >> 7; rngS ^= rngS << 17; return rngS; }
static void sampleWitness(State &st) {
  if (st.uncertain || st.bad) return; witSeen++; size_t slot;
  if (witnesses.size() < maxWit) { slot = witnesses.size(); witnesses.push_back(""); } else { uint64_t k = rnd() % witSeen; if (k >= maxWit) return; slot = k; }
  Model m; if (!S->model(st.pc, m)) return; Str w = modelText(st, st.pc); EvalMemo memo; for (auto &t : st.trace) { if (t.first == "=") { char b[40]; snprintf(b, 40, "> = %llx\n", (unsigned long long)(t.second.e ? evalE(t.second.e, m, memo) : t.second.c)); w += b; } else w += "> " + t.first + "\n"; }
  witnesses[slot] = w;
}
static void runState(State *sp) { static uint32_t tick;
  State &st = *sp; uint64_t s0 = st.steps;
  try {
    while (!st.fr.empty()) {
      step(st); if ((++tick & 255) == 0 && timeUp()) { T.dropped++; T.steps += st.steps - s0; delete sp; return; }
      if (st.steps > stepLimit) { report(st, st.pc, "hang", "no termination within the step bound"); T.capped++; break; }
    }
    T.paths++; sampleWitness(st);
  } catch (PathEnd &) { T.paths++; }
  T.steps += st.steps - s0; delete sp;
}

// ---------------------------------------------------------------- results as text records (worker -> parent)
static void emitResults(FILE *o) {
  for (auto &p : S->prof) if (p.second.second > 0.2) fprintf(stderr, "PROF %6.2f s %6llu calls %s\n", p.second.second, (unsigned long long)p.second.first, locStr(p.first).c_str());
  S->prof.clear();
  fprintf(o, "T %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu\n", (unsigned long long)T.paths, (unsigned long long)T.errors, (unsigned long long)T.steps, (unsigned long long)T.forks, (unsigned long long)T.assertsChecked, (unsigned long long)T.assertQ, (unsigned long long)T.dropped, (unsigned long long)T.assumed, (unsigned long long)T.unknowns, (unsigned long long)T.capped);
  auto &q = S->st; fprintf(o, "Q %llu %llu %llu %llu %llu %llu %llu %.6f\n", (unsigned long long)q.queries, (unsigned long long)q.cacheHits, (unsigned long long)q.modelHits, (unsigned long long)q.z3calls, (unsigned long long)q.sat, (unsigned long long)q.unsat, (unsigned long long)q.unknown, q.z3time);
  for (auto &r : reachHits) fprintf(o, "R %llu %s\n", (unsigned long long)r.second, r.first.c_str());
  for (auto &r : assertHits) fprintf(o, "A %llu %s\n", (unsigned long long)r.second, r.first.c_str());
  for (auto *f : funcVec) if (f->repo && f->calls) fprintf(o, "F %llu %s\n", (unsigned long long)f->calls, f->name.c_str());
  for (auto *f : funcVec) if (f->repo && f->decoded) for (auto &b : f->blks) for (auto l : b.locs) fprintf(o, "L %d %u %s\n", b.hits ? 1 : 0, locs[l].line, locs[l].file.c_str());
  for (auto &w : witnesses) if (!w.empty()) fprintf(o, "P \"%s\"\n", jesc(w).c_str());
  for (auto &u : unsupHits) fprintf(o, "U %llu %s\n", (unsigned long long)u.second, u.first.c_str());
  for (auto &c : cands) fprintf(o, "V {\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"stack\":\"%s\",\"replay\":\"%s\"}\n", jesc(c.kind).c_str(), jesc(c.msg).c_str(), jesc(c.loc).c_str(), jesc(c.stack).c_str(), jesc(c.replay).c_str());
  fflush(o);
}
int main(int argc, char **argv) {
  Str file, entry = "main", outp, rewrite, dumpf; int jobs = 1; size_t frontier = 0;
  for (int i = 1; i < argc; i++) { Str a = argv[i]; auto nx = [&]() { return Str(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") outp = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--grace") grace = atof(nx().c_str()); else if (a == "--time") tLimit = atof(nx().c_str()); else if (a == "--steps") stepLimit = strtoull(nx().c_str(), 0, 10); else if (a == "--iso") iso = true; else if (a == "--repo") repoPrefix = nx(); else if (a == "--rewrite") rewrite = nx(); else if (a == "-v") verbose = 1; else if (a == "--dump") dumpf = nx(); else if (a == "--frontier") frontier = atoi(nx().c_str()); else if (a == "--seed") rngS ^= strtoull(nx().c_str(), 0, 10) * 0x9E3779B97F4A7C15ULL; else if (a == "--maxcand") maxCand = atoi(nx().c_str()); else file = a; }
  LLVMContext ctx; SMDiagnostic err; M = parseIRFile(file, err, ctx); if (!M) { err.print("zsym", errs()); return 3; }
  DL = &M->getDataLayout();
  if (!rewrite.empty()) { // give every allocator block its own heap object (for the native replay under ASan)
    Function *r = M->getFunction("vf_iso_alloc"); if (!r) die("no vf_iso_alloc");
    for (auto &f : *M) if (isBlockAlloc(&f, baseName(&f))) f.replaceAllUsesWith(r);
    std::error_code ec; raw_fd_ostream os(rewrite, ec); WriteBitcodeToFile(*M, os); os.flush(); os.close(); fflush(0); _exit(0); }
  S = new Solver();
  uint64_t ga = GBASE; std::vector<const GlobalVariable *> gs;
  for (auto &g : M->globals()) { if (g.getName().starts_with("llvm.")) continue; uint64_t sz = DL->getTypeAllocSize(g.getValueType()); gaddr[&g] = ga; ga = (ga + sz + 32 + 15) & ~15ULL; gs.push_back(&g); }
  for (auto *g : gs) { uint32_t sz = (uint32_t)DL->getTypeAllocSize(g->getValueType()); bool k = g->isConstant(); ObjR o = mkObj(gaddr[g], sz ? sz : 1, k ? KConst : KGlobal); if (g->hasInitializer()) initBytes(o.p, 0, g->getInitializer()); else for (uint32_t i = 0; i < sz; i++) putByte(o.p, i, Val((uint64_t)0)); if (k) { gIndex.push_back({o->base, {true, (int)constObjs.size()}}); constObjs.push_back(o); } else { gIndex.push_back({o->base, {false, (int)globInit.size()}}); globInit.push_back(o); } }
  Function *ef = M->getFunction(entry); if (!ef) die("no entry " + entry);
  Func *E0 = getFunc(ef); decode(E0);
  // decode everything reachable up front so that coverage denominators are known
  for (size_t i = 0; i < funcVec.size(); i++) if (!funcVec[i]->F->isDeclaration()) decode(funcVec[i]);
  tStart = now(); S->deadline = tStart + tLimit;
  if (!dumpf.empty()) { S->dump = fopen(dumpf.c_str(), "w"); S->dumpMax = 4000; fprintf(S->dump, "(set-logic ALL)\n"); }
  sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Shared(); sh->next = 0; sh->found = 0;
  std::vector<Func *> ctors; State *s0 = new State(); s0->in = Ref<Inputs>(new Inputs()); s0->glob = globInit; Frame *f0 = new Frame(); f0->f = E0; f0->r.resize(E0->nregs); f0->stackMark = 0; s0->fr.push_back(Ref<Frame>(f0));
  globInit.clear();
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto *cs = dyn_cast<ConstantStruct>(ca->getOperand(i)); Function *cf = cs ? dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()) : nullptr; if (!cf) continue; Func *c = getFunc(cf); decode(c); for (size_t q = 0; q < funcVec.size(); q++) if (!funcVec[q]->F->isDeclaration()) decode(funcVec[q]); ctors.push_back(c); }
  f0->ip = 0; for (size_t i = ctors.size(); i-- > 0;) { Frame *f = new Frame(); f->f = ctors[i]; f->r.resize(ctors[i]->nregs); f->stackMark = 0; f->retDst = -2; s0->fr.push_back(Ref<Frame>(f)); }
  work.push_back(s0); std::deque<State *> fr; bool complete = true;
  size_t want = jobs > 1 ? (frontier ? frontier : (size_t)jobs * 60) : 0;
  std::vector<State *> pool; FILE *out = outp.empty() ? stdout : fopen(outp.c_str(), "w"); if (!out) die("out");
  fr.push_back(work.back()); work.clear();
  // breadth-first until there is enough work to share
  while (!fr.empty() && (want && fr.size() < want)) {
    State *s = fr.front(); fr.pop_front();
    // advance s to its next fork, then requeue everything
    uint64_t st0 = s->steps; bool done = false;
    try { while (work.empty()) { step(*s); if ((s->steps & 255) == 0 && timeUp()) { T.dropped++; done = true; break; } if (s->fr.empty()) { done = true; break; } if (s->steps > stepLimit) { report(*s, s->pc, "hang", "no termination within the step bound"); T.capped++; done = true; break; } } } catch (PathEnd &) { done = true; }
    T.steps += s->steps - st0; if (done) { T.paths++; if (s->fr.empty()) sampleWitness(*s); delete s; } else fr.push_back(s);
    for (auto *w : work) fr.push_back(w); work.clear();
    if (timeUp()) break;
  }
  if (fr.empty() || jobs <= 1) {
    for (auto *s : fr) work.push_back(s); fr.clear();
    while (!work.empty()) { if (timeUp()) { T.dropped += work.size(); complete = false; break; } State *s = work.back(); work.pop_back(); runState(s); }
    emitResults(out);
  } else {
    pool.assign(fr.begin(), fr.end());
    // interleave so that neighbouring (similar) states go to different workers
    emitResults(out); // parent phase
    std::vector<pid_t> pids; std::vector<FILE *> tmps;
    for (int j = 0; j < jobs; j++) {
      FILE *tf = tmpfile(); if (!tf) die("tmpfile"); fflush(out); pid_t p = fork();
      if (p == 0) {
        T = Totals(); S->st = SolverStats(); reachHits.clear(); assertHits.clear(); cands.clear(); witnesses.clear(); unsupHits.clear(); witSeen = 0; rngS += 7919ULL * (j + 1); for (auto *f : funcVec) { f->calls = 0; for (auto &b : f->blks) b.hits = 0; }
        if (S->dump) { S->dump = nullptr; if (!dumpf.empty()) { S->dump = fopen((dumpf + "." + std::to_string(j)).c_str(), "w"); fprintf(S->dump, "(set-logic ALL)\n"); S->dumped = 0; } }
        while (true) { uint32_t i = sh->next++; if (i >= pool.size()) break; work.clear(); work.push_back(pool[i]);
          while (!work.empty()) { if (stopNow()) { T.dropped += work.size(); work.clear(); break; } State *s = work.back(); work.pop_back(); runState(s); } }
        if (S->dump) fclose(S->dump);
        emitResults(tf); fprintf(tf, "END\n"); fflush(tf); _exit(0);
      }
      pids.push_back(p); tmps.push_back(tf);
    }
    for (int j = 0; j < jobs; j++) { int stt; waitpid(pids[j], &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { fprintf(out, "X worker died status %d\n", stt); complete = false; } rewind(tmps[j]); char *line = nullptr; size_t cap = 0; while (getline(&line, &cap, tmps[j]) > 0) if (strcmp(line, "END\n")) fputs(line, out); free(line); fclose(tmps[j]); }
  }
  (void)complete; fprintf(out, "W %.3f %zu\n", now() - tStart, pool.size()); fclose(out);
  if (S->dump) fclose(S->dump);
  fflush(stdout); _exit(0);
}

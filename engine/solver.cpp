#include "solver.h"
#include <chrono>
#include <set>
#include <functional>
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

Solver::Solver() {
  Z3_config cf = Z3_mk_config(); ctx = new Ctx{Z3_mk_context(cf)}; Z3_del_config(cf);
  z3s = Z3_mk_simple_solver(*ctx); Z3_solver_inc_ref(*ctx, z3s);
  Z3_params p = Z3_mk_params(*ctx); Z3_params_inc_ref(*ctx, p); Z3_params_set_uint(*ctx, p, Z3_mk_string_symbol(*ctx, "timeout"), timeoutMs); Z3_solver_set_params(*ctx, z3s, p);
}
Z3_ast Solver::z(E e) {
  auto it = conv.find(e); if (it != conv.end()) return it->second;
  Z3_context c = ctx->c; Z3_ast r = nullptr;
  auto B = [&](Z3_ast boolean) { // Bool -> bv1
    return Z3_mk_ite(c, boolean, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)), Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1))); };
  auto T = [&](Z3_ast bv1) { return Z3_mk_eq(c, bv1, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))); };
  auto F = [&](Z3_ast bv) { return Z3_mk_fpa_to_fp_bv(c, bv, Z3_mk_fpa_sort_double(c)); };
  Z3_ast a = e->a ? z(e->a) : nullptr, b = e->b ? z(e->b) : nullptr, d = e->c ? z(e->c) : nullptr;
  switch (e->op) {
  case OConst: r = Z3_mk_unsigned_int64(c, e->val, Z3_mk_bv_sort(c, e->w)); break;
  case OVar: r = Z3_mk_const(c, Z3_mk_int_symbol(c, (int)e->val), Z3_mk_bv_sort(c, e->w)); break;
  case OAdd: r = Z3_mk_bvadd(c, a, b); break; case OSub: r = Z3_mk_bvsub(c, a, b); break; case OMul: r = Z3_mk_bvmul(c, a, b); break;
  case OUDiv: r = Z3_mk_bvudiv(c, a, b); break; case OSDiv: r = Z3_mk_bvsdiv(c, a, b); break;
  case OURem: r = Z3_mk_bvurem(c, a, b); break; case OSRem: r = Z3_mk_bvsrem(c, a, b); break;
  case OShl: r = Z3_mk_bvshl(c, a, b); break; case OLShr: r = Z3_mk_bvlshr(c, a, b); break; case OAShr: r = Z3_mk_bvashr(c, a, b); break;
  case OAnd: r = Z3_mk_bvand(c, a, b); break; case OOr: r = Z3_mk_bvor(c, a, b); break; case OXor: r = Z3_mk_bvxor(c, a, b); break;
  case OEq: r = B(Z3_mk_eq(c, a, b)); break; case OUlt: r = B(Z3_mk_bvult(c, a, b)); break; case OUle: r = B(Z3_mk_bvule(c, a, b)); break;
  case OSlt: r = B(Z3_mk_bvslt(c, a, b)); break; case OSle: r = B(Z3_mk_bvsle(c, a, b)); break;
  case OIte: r = Z3_mk_ite(c, T(a), b, d); break;
  case OZExt: r = Z3_mk_zero_ext(c, e->w - e->a->w, a); break; case OSExt: r = Z3_mk_sign_ext(c, e->w - e->a->w, a); break;
  case OExtract: r = Z3_mk_extract(c, e->val + e->w - 1, e->val, a); break; case OConcat: r = Z3_mk_concat(c, a, b); break;
  case OTab: { // pieces that are constant or follow the index, as a balanced tree of comparisons
    const Table &t = tableOf(e->val); Z3_sort so = Z3_mk_bv_sort(c, e->w), s8 = Z3_mk_bv_sort(c, 8); uint64_t mk = maskw(e->w);
    struct Pc { int hi; bool lin; uint64_t k; }; std::vector<Pc> ps;
    for (int i = 0; i < 256;) { int j = i, l = i; while (j < 255 && (t[j + 1] & mk) == (t[i] & mk)) j++; if (e->w >= 8) while (l < 255 && ((t[l + 1] - (l + 1)) & mk) == ((t[i] - i) & mk)) l++;
      if (l > j) { ps.push_back({l, true, (t[i] - i) & mk}); i = l + 1; } else { ps.push_back({j, false, t[i] & mk}); i = j + 1; } }
    Z3_ast wide = e->w > 8 ? Z3_mk_zero_ext(c, e->w - 8, a) : a;
    std::function<Z3_ast(size_t, size_t)> tree = [&](size_t x, size_t y) -> Z3_ast { if (y - x == 1) { Z3_ast k = Z3_mk_unsigned_int64(c, ps[x].k, so); return ps[x].lin ? (ps[x].k ? Z3_mk_bvadd(c, wide, k) : wide) : k; }
      size_t mid = (x + y) / 2; return Z3_mk_ite(c, Z3_mk_bvule(c, a, Z3_mk_unsigned_int64(c, ps[mid - 1].hi, s8)), tree(x, mid), tree(mid, y)); };
    r = tree(0, ps.size()); break; }
  case ONot: r = Z3_mk_bvnot(c, a); break;
  case OFOeq: r = B(Z3_mk_fpa_eq(c, F(a), F(b))); break; case OFOlt: r = B(Z3_mk_fpa_lt(c, F(a), F(b))); break; case OFOle: r = B(Z3_mk_fpa_leq(c, F(a), F(b))); break;
  case OFUno: { Z3_ast t[2] = {Z3_mk_fpa_is_nan(c, F(a)), Z3_mk_fpa_is_nan(c, F(b))}; r = B(Z3_mk_or(c, 2, t)); break; }
  case OFAdd: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, Z3_mk_fpa_rne(c), F(a), F(b))); break;
  case OFSub: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, Z3_mk_fpa_rne(c), F(a), F(b))); break;
  case OFMul: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, Z3_mk_fpa_rne(c), F(a), F(b))); break;
  case OFDiv: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, Z3_mk_fpa_rne(c), F(a), F(b))); break;
  case OSIToFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, Z3_mk_fpa_sort_double(c))); break;
  case OUIToFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, Z3_mk_fpa_sort_double(c))); break;
  case OFPToSI: r = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), F(a), e->w); break;
  }
  Z3_inc_ref(c, r); conv[e] = r; return r;
}
Group *Solver::intern(std::vector<E> cs) {
  std::sort(cs.begin(), cs.end(), [](E x, E y) { return x->id < y->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::vector<uint32_t> key; key.reserve(cs.size()); for (E e : cs) key.push_back(e->id);
  auto it = groupTab.find(key); if (it != groupTab.end()) return it->second;
  Group *g = new Group(); g->gid = nextGid++; g->cs = cs; const VarSet *vs = P.emptyVars; for (E e : cs) vs = P.unionVars(vs, e->vars); g->vars = vs;
  groupTab[key] = g; return g;
}
static bool meets(const VarSet *x, const VarSet *y) {
  size_t i = 0, j = 0; while (i < x->size() && j < y->size()) { if ((*x)[i] == (*y)[j]) return true; if ((*x)[i] < (*y)[j]) i++; else j++; } return false;
}
Group *Solver::slice(const PathCond &pc, const VarSet *vars) {
  Group *one = nullptr; std::vector<E> cs; bool multi = false;
  for (Group *g : pc.groups) if (meets(g->vars, vars)) { if (!one) one = g; else { if (!multi) { cs = one->cs; multi = true; } cs.insert(cs.end(), g->cs.begin(), g->cs.end()); } }
  if (multi) { Group *m = intern(cs);
    if (!m->haveModel) { bool all = true; Model mm; for (Group *g : pc.groups) if (meets(g->vars, vars)) { if (!g->haveModel) { all = false; break; } for (auto &kv : g->model) mm[kv.first] = kv.second; } if (all) { m->model = mm; m->haveModel = true; } }
    return m; }
  return one;
}
static const bool profile = getenv("ZSYM_PROF") != nullptr;
static const bool slowLog = getenv("ZSYM_SLOW") != nullptr;
int Solver::z3check(const std::vector<E> &cs, Model *m, const VarSet *vars) {
  double t = now(); Z3_context c = ctx->c; st.z3calls++;
  Z3_solver_push(c, z3s); Z3_ast one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
  for (E e : cs) Z3_solver_assert(c, z3s, Z3_mk_eq(c, z(e), one));
  Z3_lbool r = Z3_solver_check(c, z3s);
  Z3_solver hs = nullptr;
  if (r == Z3_L_UNDEF) { // second attempt: fresh solver built from tactics
    if (!hard) { hard = Z3_mk_tactic(c, "qfbv"); Z3_tactic_inc_ref(c, hard); }
    hs = Z3_mk_solver_from_tactic(c, hard); Z3_solver_inc_ref(c, hs); Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), (unsigned)std::max(1.0, std::min((double)hardMs, (deadline - now()) * 1000))); Z3_solver_set_params(c, hs, p); Z3_params_dec_ref(c, p);
    for (E e : cs) Z3_solver_assert(c, hs, Z3_mk_eq(c, z(e), one)); r = Z3_solver_check(c, hs); st.hardCalls++;
  }
  if (slowLog && now() - t > 1) { fprintf(stderr, "SLOW %.1fs r=%d %s\n", now() - t, (int)r, hs ? Z3_solver_get_reason_unknown(c, hs) : ""); for (E e : cs) fprintf(stderr, "  %s\n", Z3_ast_to_string(c, Z3_simplify(c, z(e)))); }
  if (dump && dumped < dumpMax && r != Z3_L_UNDEF) {
    dumped++; std::set<uint32_t> vs; for (E e : cs) for (auto v : *e->vars) vs.insert(v);
    fprintf(dump, "(push 1)\n"); for (auto v : vs) fprintf(dump, "(declare-const k!%u (_ BitVec %d))\n", v, P.varExpr[v]->w);
    for (E e : cs) fprintf(dump, "(assert %s)\n", Z3_ast_to_string(c, Z3_mk_eq(c, z(e), one)));
    fprintf(dump, "(check-sat) ; expect %s\n(pop 1)\n", r == Z3_L_TRUE ? "sat" : "unsat");
  }
  if (r == Z3_L_TRUE && m) {
    Z3_model mo = Z3_solver_get_model(c, hs ? hs : z3s); Z3_model_inc_ref(c, mo);
    for (uint32_t v : *vars) { Z3_ast out; uint64_t u = 0; if (Z3_model_eval(c, mo, z(P.varExpr[v]), true, &out)) { Z3_get_numeral_uint64(c, out, (uint64_t *)&u); } (*m)[v] = u; }
    Z3_model_dec_ref(c, mo);
  }
  if (hs) Z3_solver_dec_ref(c, hs);
  Z3_solver_pop(c, z3s, 1); st.z3time += now() - t; if (profile) { auto &p = prof[at]; p.first++; p.second += now() - t; }
  if (r == Z3_L_TRUE) { st.sat++; return 1; } if (r == Z3_L_FALSE) { st.unsat++; return 0; } st.unknown++; return -1;
}
// A condition on one byte, however it is computed, as ranges of that byte (when that is the shorter form).
static int nodes(E e, int cap) { if (!e || cap <= 0) return 0; if (e->op == OTab) return 40; int n = e->op != OConst; n += nodes(e->a, cap - n); n += nodes(e->b, cap - n); n += nodes(e->c, cap - n); return n; }
E Solver::canon(E c) {
  if (isK(c) || c->w != 1 || c->vars->size() != 1) return c;
  uint32_t v = (*c->vars)[0]; if (P.varExpr[v]->w != 8) return c;
  auto it = canonTab.find(c); if (it != canonTab.end()) return it->second;
  Table t(256, 0); Model m; for (int i = 0; i < 256; i++) { m[v] = i; EvalMemo memo; t[i] = evalE(c, m, memo) & 1; }
  Table neg(256, 0); for (int i = 0; i < 256; i++) neg[i] = !t[i];
  E x = mkTab(P.varExpr[v], 1, t), y = mkNot(mkTab(P.varExpr[v], 1, neg)); int nx = nodes(x, 1000), ny = nodes(y, 1000); E r = nx <= ny ? x : y; if (nodes(c, 1000) <= std::min(nx, ny)) r = c;
  canonTab[c] = r; canonTab[r] = r; return r;
}
int Solver::may(const PathCond &pc, E c) {
  c = canon(c); if (isK(c)) return c->val != 0;
  st.queries++;
  Group *g = slice(pc, c->vars);
  uint64_t key = ((uint64_t)(g ? g->gid : 0) << 32) | c->id;
  auto it = cache.find(key); if (it != cache.end()) { st.cacheHits++; return it->second; }
  if (g && g->haveModel) { EvalMemo memo; if (evalE(c, g->model, memo)) { st.modelHits++; cache[key] = 1; return 1; } }
  std::vector<E> cs; if (g) cs = g->cs; cs.push_back(c);
  const VarSet *vs = g ? P.unionVars(g->vars, c->vars) : c->vars;
  Model m; int r = z3check(cs, &m, vs);
  if (r >= 0) cache[key] = r;
  if (r == 1) { Group *ng = intern(cs); if (!ng->haveModel) { ng->model = m; ng->haveModel = true; } if (g && !g->haveModel) { g->model = m; g->haveModel = true; } }
  return r;
}
static bool meets(const VarSet *x, const VarSet *y);
E Solver::subst(Fixed &f, E e) {
  if (isK(e) || !meets(e->vars, f.vars)) return e;
  auto k = f.m.find(e); if (k != f.m.end()) return P.K(k->second, e->w);
  if (e->op == OVar) return e;
  auto it = f.memo.find(e); if (it != f.memo.end()) return it->second;
  E a = e->a ? subst(f, e->a) : nullptr, b = e->b ? subst(f, e->b) : nullptr, c = e->c ? subst(f, e->c) : nullptr, r;
  if (a == e->a && b == e->b && c == e->c) r = e;
  else switch (e->op) {
    case OIte: r = mkIte(a, b, c); break; case OZExt: r = mkZExt(a, e->w); break; case OSExt: r = mkSExt(a, e->w); break;
    case OExtract: r = mkExtract(a, e->val, e->w); break; case OConcat: r = mkConcat(a, b); break; case ONot: r = mkNot(a); break;
    case OTab: r = mkTab(a, e->w, Table(tableOf(e->val))); break; case OSIToFP: case OUIToFP: r = mkF(e->op, a, nullptr); break; case OFPToSI: r = e; break;
    default: r = mkBin(e->op, a, b); }
  f.memo[e] = r; return r;
}
static void learn(PathCond &pc, E e, uint64_t k) { // e == k on this path
  for (;;) {
    if (e->op == OAdd && isK(e->b)) { k = (k - e->b->val) & maskw(e->w); e = e->a; }
    else if (e->op == OAdd && isK(e->a)) { k = (k - e->a->val) & maskw(e->w); e = e->b; }
    else if ((e->op == OZExt || e->op == OSExt)) { k &= maskw(e->a->w); e = e->a; }
    else if (e->op == OConcat) { learn(pc, e->a, k >> e->b->w); k &= maskw(e->b->w); e = e->b; }
    else break; }
  if (isK(e)) return;
  auto n = std::make_shared<Fixed>(); static uint32_t ids; n->id = ++ids; if (pc.fix) { n->m = pc.fix->m; n->vars = P.unionVars(pc.fix->vars, e->vars); } else n->vars = e->vars;
  n->m[e] = k; pc.fix = n;
}
void Solver::know(PathCond &pc, E e, uint64_t k) { if (!isK(subst(pc, e))) learn(pc, e, k); }
void Solver::add(PathCond &pc, E c) {
  c = canon(c); if (isK(c)) return;
  if (c->op == OEq && c->a->w > 1) { if (isK(c->b)) learn(pc, c->a, c->b->val); else if (isK(c->a)) learn(pc, c->b, c->a->val); }
  if (c->op == OAnd && c->w == 1) { add(pc, c->a); add(pc, c->b); return; }
  if (c->op == ONot && c->a->op == OOr) { add(pc, mkNot(c->a->a)); add(pc, mkNot(c->a->b)); return; }
  std::vector<E> cs; std::vector<Group *> rest; std::vector<Group *> hit;
  for (Group *g : pc.groups) if (meets(g->vars, c->vars)) { hit.push_back(g); } else rest.push_back(g);
  for (Group *g : hit) { for (E e : g->cs) if (e == c) return; cs.insert(cs.end(), g->cs.begin(), g->cs.end()); }
  cs.push_back(c); Group *n = intern(cs);
  if (!n->haveModel) { // reuse an old model when it still fits
    Model mm; bool all = true; for (Group *g : hit) { if (!g->haveModel) { all = false; break; } for (auto &kv : g->model) mm[kv.first] = kv.second; }
    if (all) { EvalMemo memo; if (evalE(c, mm, memo)) { for (auto v : *c->vars) if (!mm.count(v)) mm[v] = 0; n->model = mm; n->haveModel = true; } }
  }
  rest.push_back(n); pc.groups.swap(rest); pc.n++;
}
void Solver::hint(PathCond &pc, const Model &m) {
  for (Group *g : pc.groups) if (!g->haveModel) { Model mm; bool ok = true; for (auto v : *g->vars) { auto it = m.find(v); if (it == m.end()) { ok = false; break; } mm[v] = it->second; } if (!ok) continue;
    EvalMemo memo; for (E e : g->cs) if (!evalE(e, mm, memo)) { ok = false; break; } if (ok) { g->model = mm; g->haveModel = true; } }
}
bool Solver::model(const PathCond &pc, Model &m) {
  for (Group *g : pc.groups) {
    if (!g->haveModel) { Model mm; if (z3check(g->cs, &mm, g->vars) != 1) return false; g->model = mm; g->haveModel = true; }
    for (auto &kv : g->model) m[kv.first] = kv.second;
  }
  return true;
}
bool Solver::value(const PathCond &pc, E e, E extra, uint64_t &out) {
  const VarSet *vs = P.unionVars(e->vars, extra->vars); Group *g = slice(pc, vs);
  EvalMemo memo;
  if (g && g->haveModel && evalE(extra, g->model, memo)) { out = evalE(e, g->model, memo); return true; }
  std::vector<E> cs; if (g) cs = g->cs; if (!isK(extra)) cs.push_back(extra); else if (!extra->val) return false;
  Model m; if (z3check(cs, &m, g ? P.unionVars(g->vars, vs) : vs) != 1) return false;
  memo.clear(); out = evalE(e, m, memo); return true;
}

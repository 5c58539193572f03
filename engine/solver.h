// Feasibility queries: independence slicing + exact cache in front of z3.
#pragma once
#include "expr.h"
#include <z3.h>
#include <memory>
#include <map>

typedef std::unordered_map<uint32_t, uint64_t> Model;
struct Group { // a set of constraints closed under shared variables (interned, immutable)
  uint32_t gid; std::vector<E> cs; const VarSet *vars; bool haveModel = false; Model model;
};
struct Fixed { uint32_t id; std::unordered_map<E, uint64_t> m; const VarSet *vars; std::unordered_map<E, E> memo; }; // expressions a path has made constant
struct PathCond { // the groups of one path, pairwise variable-disjoint
  std::vector<Group *> groups; std::shared_ptr<Fixed> fix;
  uint32_t n = 0;
};
struct SolverStats { uint64_t queries = 0, cacheHits = 0, modelHits = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, hardCalls = 0; double z3time = 0; };

struct Solver {
  struct Ctx { Z3_context c; operator Z3_context() const { return c; } } *ctx; Z3_solver z3s; Z3_tactic hard = nullptr;
  std::unordered_map<E, Z3_ast> conv;
  SolverStats st;
  struct VH { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = v.size(); for (auto x : v) h = h * 1099511628211ULL + x; return h; } };
  std::unordered_map<std::vector<uint32_t>, Group *, VH> groupTab;
  std::unordered_map<uint64_t, int> cache; // (gid,cond) -> 0 unsat 1 sat
  uint32_t nextGid = 1;
  unsigned timeoutMs = 400, hardMs = 60000; double deadline = 1e300; // first attempt incremental; then bit-blasting with preprocessing
  FILE *dump = nullptr; // SMT-LIB transcript of the distinct queries (cross-checked by another solver)
  uint64_t dumped = 0, dumpMax = 0;
  uint32_t at = 0; std::map<uint32_t, std::pair<uint64_t, double>> prof; // with ZSYM_PROF: calls and seconds per source location
  Solver();
  Z3_ast z(E e);
  Group *intern(std::vector<E> cs);
  Group *slice(const PathCond &pc, const VarSet *vars);
  // is pc /\ c satisfiable?  (pc itself is satisfiable by construction)
  int may(const PathCond &pc, E c); // 1 sat, 0 unsat, -1 unknown
  void add(PathCond &pc, E c);
  E subst(const PathCond &pc, E e) { return pc.fix ? subst(*pc.fix, e) : e; } // e with what the path has made constant replaced
  E subst(Fixed &f, E e);
  void know(PathCond &pc, E e, uint64_t k); // the path condition implies e == k
  std::unordered_map<E, E> canonTab; E canon(E c);
  bool model(const PathCond &pc, Model &m); // full model
  void hint(PathCond &pc, const Model &m); // offer a model for the groups that have none
  bool value(const PathCond &pc, E e, E extra, uint64_t &out); // a value of e under pc /\ extra
  int z3check(const std::vector<E> &cs, Model *m, const VarSet *vars);
};

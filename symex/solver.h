// z3 back end: translation of expressions, sliced queries with a cache.
#pragma once
#include "expr.h"
#include <z3.h>
#include <map>
#include <chrono>

static inline double nowS() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Solver {
  Ctx &cx;
  Z3_context z;
  Z3_solver s;
  std::unordered_map<uint64_t, Z3_ast> memo;          // (expression, domains of its variables) -> z3 term
  std::unordered_map<int, uint32_t> curDom;              // domains of the variables of the current query
  std::unordered_map<uint32_t, uint32_t> curSig;         // variable set -> domain signature, current query
  std::unordered_map<std::string, uint32_t> sigs;
  uint32_t sig(uint32_t vs) {
    auto it = curSig.find(vs);
    if (it != curSig.end()) return it->second;
    std::string k;
    for (int v : cx.vsets[vs]) {
      auto d = curDom.find(v);
      uint32_t x = d == curDom.end() ? ~0u : d->second;
      k.append((const char *)&x, 4);
    }
    auto r = sigs.emplace(k, (uint32_t)sigs.size());
    return curSig[vs] = r.first->second;
  }
  // term for a single-byte function given by its value table, exact on the byte's current domain: few affine pieces, or null
  Z3_ast affine(E e) {
    auto d = curDom.find(e->var);
    const uint64_t *t = cx.table(e);
    uint64_t m = maskw(e->w);
    struct Seg { int lo, hi; uint64_t a, c; };
    std::vector<Seg> sg;
    std::vector<int> xs;
    if (d == curDom.end()) for (int i = 0; i < 256; i++) xs.push_back(i);
    else for (int i = 0; i < 256; i++) if (cx.doms[d->second].get(i)) xs.push_back(i);
    if (xs.empty()) return nullptr;
    for (size_t i = 0; i < xs.size();) {
      int x0 = xs[i];
      if (i + 1 == xs.size()) { sg.push_back({x0, x0, 0, t[x0]}); break; }
      int x1 = xs[i + 1];
      int64_t df = sxt((t[x1] - t[x0]) & m, e->w);
      if (df % (x1 - x0)) { sg.push_back({x0, x0, 0, t[x0]}); i++; if (sg.size() > 6) return nullptr; continue; }
      uint64_t a = (uint64_t)(df / (x1 - x0)) & m, c = (t[x0] - a * x0) & m;
      size_t j = i + 1;
      while (j + 1 < xs.size() && t[xs[j + 1]] == ((a * xs[j + 1] + c) & m)) j++;
      if (j == i + 1 && a != 0 && i + 2 < xs.size()) { sg.push_back({x0, x0, 0, t[x0]}); i++; if (sg.size() > 6) return nullptr; continue; }
      sg.push_back({x0, xs[j], a, c});
      if (sg.size() > 6) return nullptr;
      i = j + 1;
    }
    Z3_ast r = nullptr, x = var(e->var);
    for (int i = (int)sg.size() - 1; i >= 0; i--) {
      Seg &g = sg[i];
      Z3_ast v;
      if (g.a == 0) v = num(g.c, e->w);
      else {
        v = e->w > 8 ? Z3_mk_zero_ext(z, e->w - 8, x) : e->w < 8 ? Z3_mk_extract(z, e->w - 1, 0, x) : x;
        if (g.a != 1) v = Z3_mk_bvmul(z, num(g.a, e->w), v);
        if (g.c) v = Z3_mk_bvadd(z, v, num(g.c, e->w));
      }
      r = r ? Z3_mk_ite(z, Z3_mk_bvule(z, x, num(g.hi, 8)), v, r) : v;
    }
    return r;
  }
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0;
  double time = 0, maxq = 0;
  unsigned timeoutMs;
  int mode = 0;
  struct Res { int r; std::vector<std::pair<int, uint8_t>> m; };
  std::unordered_map<std::string, Res> cache;
  Solver(Ctx &c, unsigned tmo, unsigned seed) : cx(c), timeoutMs(tmo) {
    Z3_config cfg = Z3_mk_config();
    z = Z3_mk_context(cfg);
    Z3_set_error_handler(z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
    if (const char *m = getenv("SYMEX_SOLVER")) mode = atoi(m);
    s = mk(mode == 2);
    s2 = mk(mode != 2);
    setTimeout(s, std::min(timeoutMs, 2000u), seed);
    setTimeout(s2, timeoutMs, seed);
  }
  Z3_solver s2;
  void setTimeout(Z3_solver v, unsigned ms, unsigned seed) {
    Z3_params p = Z3_mk_params(z);
    Z3_params_inc_ref(z, p);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), ms);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "random_seed"), seed);
    Z3_solver_set_params(z, v, p);
  }
  Z3_solver mk(bool tactic) {
    Z3_solver r;
    if (!tactic) r = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV"));
    else { // full preprocessing, for the queries the incremental solver does not finish quickly
      const char *n[] = {"simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "reduce-bv-size", "simplify", "max-bv-sharing", "bit-blast", "sat"};
      Z3_tactic t = nullptr;
      int k = sizeof n / sizeof *n;
      for (int i = k - 1; i >= 0; i--) {
        Z3_tactic u = Z3_mk_tactic(z, n[i]);
        Z3_tactic_inc_ref(z, u);
        t = t ? Z3_tactic_and_then(z, u, t) : u;
        Z3_tactic_inc_ref(z, t);
      }
      r = Z3_mk_solver_from_tactic(z, t);
    }
    Z3_solver_inc_ref(z, r);
    return r;
  }
  Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(z, w); }
  Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(z, v, bv(w)); }
  Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(z, b, num(1, 1), num(0, 1)); }
  std::unordered_map<int, Z3_ast> zvars;
  Z3_ast var(int i) {
    auto it = zvars.find(i);
    if (it != zvars.end()) return it->second;
    char n[32];
    snprintf(n, sizeof n, "v%d", i);
    Z3_ast a = Z3_mk_const(z, Z3_mk_string_symbol(z, n), bv(8));
    Z3_inc_ref(z, a);
    return zvars[i] = a;
  }
  Z3_ast inRange(int v, const Bits256 &d) {
    // boolean: disjunction of intervals (complemented when shorter)
    Bits256 b = d;
    bool neg = false;
    auto runs = [](const Bits256 &x) { int r = 0; bool p = false; for (int i = 0; i < 256; i++) { bool g = x.get(i); if (g && !p) r++; p = g; } return r; };
    if (runs(~b) < runs(b)) { b = ~b; neg = true; }
    std::vector<Z3_ast> parts;
    Z3_ast x = var(v);
    for (int i = 0; i < 256;) {
      if (!b.get(i)) { i++; continue; }
      int j = i;
      while (j + 1 < 256 && b.get(j + 1)) j++;
      if (i == j) parts.push_back(Z3_mk_eq(z, x, num(i, 8)));
      else if (i == 0) parts.push_back(Z3_mk_bvule(z, x, num(j, 8)));
      else if (j == 255) parts.push_back(Z3_mk_bvuge(z, x, num(i, 8)));
      else { Z3_ast c[2] = {Z3_mk_bvuge(z, x, num(i, 8)), Z3_mk_bvule(z, x, num(j, 8))}; parts.push_back(Z3_mk_and(z, 2, c)); }
      i = j + 1;
    }
    Z3_ast r = parts.empty() ? Z3_mk_false(z) : parts.size() == 1 ? parts[0] : Z3_mk_or(z, parts.size(), parts.data());
    return neg ? Z3_mk_not(z, r) : r;
  }
  bool isBool(E e) { return e->w == 1 && (e->op == E_IN || e->op == E_NOT || (e->op >= E_EQ && e->op <= E_SLE) || ((e->op == E_AND || e->op == E_OR || e->op == E_XOR) ) || e->op == E_CONST || e->op == E_ITE); }
  Z3_ast toBool(E e) {
    if (isBool(e)) return tr(e);
    return Z3_mk_eq(z, tr(e), num(1, 1));
  }
  Z3_ast toBv(E e) { return isBool(e) ? b2bv(tr(e)) : tr(e); }
  Z3_ast tr(E e) {
    uint64_t key = (uint64_t)e->id << 32 | sig(e->vs);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    Z3_ast r = nullptr;
    if (e->var >= 0 && e->w > 1 && e->op != E_VAR) r = affine(e);
    if (!r) r = tr1(e);
    Z3_inc_ref(z, r);
    memo[key] = r;
    return r;
  }
  Z3_ast tr1(E e) {
    if (isBool(e)) {
      switch (e->op) {
      case E_CONST: return e->c ? Z3_mk_true(z) : Z3_mk_false(z);
      case E_IN: return inRange(e->var, cx.doms[e->c & 0xffffffff]);
      case E_NOT: return Z3_mk_not(z, toBool(e->k[0]));
      case E_AND: { Z3_ast c[2] = {toBool(e->k[0]), toBool(e->k[1])}; return Z3_mk_and(z, 2, c); }
      case E_OR: { Z3_ast c[2] = {toBool(e->k[0]), toBool(e->k[1])}; return Z3_mk_or(z, 2, c); }
      case E_XOR: return Z3_mk_xor(z, toBool(e->k[0]), toBool(e->k[1]));
      case E_ITE: return Z3_mk_ite(z, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2]));
      case E_EQ: return Z3_mk_eq(z, toBv(e->k[0]), toBv(e->k[1]));
      case E_ULT: return Z3_mk_bvult(z, toBv(e->k[0]), toBv(e->k[1]));
      case E_ULE: return Z3_mk_bvule(z, toBv(e->k[0]), toBv(e->k[1]));
      case E_SLT: return Z3_mk_bvslt(z, toBv(e->k[0]), toBv(e->k[1]));
      case E_SLE: return Z3_mk_bvsle(z, toBv(e->k[0]), toBv(e->k[1]));
      default: abort();
      }
    }
    switch (e->op) {
    case E_CONST: return num(e->c, e->w);
    case E_VAR: return var(e->c);
    case E_ADD: return Z3_mk_bvadd(z, toBv(e->k[0]), toBv(e->k[1]));
    case E_SUB: return Z3_mk_bvsub(z, toBv(e->k[0]), toBv(e->k[1]));
    case E_MUL: return Z3_mk_bvmul(z, toBv(e->k[0]), toBv(e->k[1]));
    case E_UDIV: return Z3_mk_bvudiv(z, toBv(e->k[0]), toBv(e->k[1]));
    case E_SDIV: return Z3_mk_bvsdiv(z, toBv(e->k[0]), toBv(e->k[1]));
    case E_UREM: return Z3_mk_bvurem(z, toBv(e->k[0]), toBv(e->k[1]));
    case E_SREM: return Z3_mk_bvsrem(z, toBv(e->k[0]), toBv(e->k[1]));
    case E_AND: return Z3_mk_bvand(z, toBv(e->k[0]), toBv(e->k[1]));
    case E_OR: return Z3_mk_bvor(z, toBv(e->k[0]), toBv(e->k[1]));
    case E_XOR: return Z3_mk_bvxor(z, toBv(e->k[0]), toBv(e->k[1]));
    case E_SHL: return Z3_mk_bvshl(z, toBv(e->k[0]), toBv(e->k[1]));
    case E_LSHR: return Z3_mk_bvlshr(z, toBv(e->k[0]), toBv(e->k[1]));
    case E_ASHR: return Z3_mk_bvashr(z, toBv(e->k[0]), toBv(e->k[1]));
    case E_ITE: return Z3_mk_ite(z, toBool(e->k[0]), toBv(e->k[1]), toBv(e->k[2]));
    case E_CONCAT: return Z3_mk_concat(z, toBv(e->k[0]), toBv(e->k[1]));
    case E_EXTRACT: return Z3_mk_extract(z, e->c + e->w - 1, e->c, toBv(e->k[0]));
    case E_ZEXT: return Z3_mk_zero_ext(z, e->w - e->k[0]->w, toBv(e->k[0]));
    case E_SEXT: return Z3_mk_sign_ext(z, e->w - e->k[0]->w, toBv(e->k[0]));
    case E_LUT: {
      auto &t = cx.luts[e->c & 0xffffffff];
      // group equal values
      std::map<uint64_t, Bits256> g;
      for (int i = 0; i < 256; i++) g[t[i]].set(i);
      Z3_ast r = nullptr;
      // affine special case: t[i] == i + c on a group keeps the formula small
      for (auto &p : g) {
        if (!r) { r = num(p.first, e->w); continue; }
        r = Z3_mk_ite(z, inRange(e->var, p.second), num(p.first, e->w), r);
      }
      return r;
    }
    default: fprintf(stderr, "tr op %d\n", e->op); abort();
    }
  }
  // Decide satisfiability of a conjunction given per-variable domains. Returns 1 sat, 0 unsat, -1 unknown
  int check(const std::vector<E> &cons, const std::vector<std::pair<int, Bits256>> &doms, std::vector<std::pair<int, uint8_t>> &model) {
    std::string key;
    std::vector<uint32_t> ids;
    for (E e : cons) ids.push_back(e->id);
    std::sort(ids.begin(), ids.end());
    ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    for (auto &d : doms) { ids.push_back(0x80000000u | d.first); ids.push_back(cx.domIntern(d.second)); }
    key.assign((const char *)ids.data(), ids.size() * 4);
    auto it = cache.find(key);
    if (it != cache.end()) { cacheHits++; model = it->second.m; return it->second.r; }
    double t0 = nowS();
    curDom.clear();
    curSig.clear();
    for (auto &d : doms) curDom[d.first] = cx.domIntern(d.second);
    Z3_solver u = s;
    Z3_lbool r = Z3_L_UNDEF;
    for (int round = 0; round < 2 && r == Z3_L_UNDEF; round++) {
      if (round) { Z3_solver_pop(z, u, 1); u = s2; }
      Z3_solver_push(z, u);
      for (E e : cons) Z3_solver_assert(z, u, toBool(e));
      for (auto &d : doms) if (!d.second.full()) Z3_solver_assert(z, u, inRange(d.first, d.second));
      r = Z3_solver_check(z, u);
    }
    queries++;
    Res res;
    res.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res.r == 1) {
      sat++;
      Z3_model m = Z3_solver_get_model(z, u);
      Z3_model_inc_ref(z, m);
      for (auto &d : doms) {
        Z3_ast v;
        uint64_t n = 0;
        if (Z3_model_eval(z, m, var(d.first), true, &v)) Z3_get_numeral_uint64(z, v, &n);
        res.m.push_back({d.first, (uint8_t)n});
      }
      Z3_model_dec_ref(z, m);
    } else if (res.r == 0) unsat++;
    else unknown++;
    Z3_solver_pop(z, u, 1);
    double dt = nowS() - t0;
    time += dt;
    if (dt > maxq) maxq = dt;
    if (getenv("SYMEX_SLOWQ") && dt > atof(getenv("SYMEX_SLOWQ"))) {
      fprintf(stderr, "[slow query %.2fs r=%d cons=%zu vars=%zu]\n", dt, res.r, cons.size(), doms.size());
      if (getenv("SYMEX_DUMPQ")) for (E e : cons) fprintf(stderr, "  %s\n", Z3_ast_to_string(z, toBool(e)));
    }
    if (cache.size() > 2000000) cache.clear();
    cache[key] = res;
    model = res.m;
    return res.r;
  }
};

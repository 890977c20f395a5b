// Expression DAG for the symbolic executor: hash-consed bit-vector terms over 8-bit symbolic input bytes.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <array>
#include <unordered_map>
#include <string>
#include <algorithm>
#include <deque>

enum EOp : uint8_t {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_NOT, E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_IN, E_LUT, E_AGG
};

struct Bits256 {
  uint64_t w[4] = {0, 0, 0, 0};
  bool get(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
  void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
  bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
  bool full() const { return (w[0] & w[1] & w[2] & w[3]) == ~0ull; }
  int count() const { return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) + __builtin_popcountll(w[2]) + __builtin_popcountll(w[3]); }
  int first() const { for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
  bool operator==(const Bits256 &o) const { return w[0] == o.w[0] && w[1] == o.w[1] && w[2] == o.w[2] && w[3] == o.w[3]; }
  Bits256 operator&(const Bits256 &o) const { Bits256 r; for (int i = 0; i < 4; i++) r.w[i] = w[i] & o.w[i]; return r; }
  Bits256 operator|(const Bits256 &o) const { Bits256 r; for (int i = 0; i < 4; i++) r.w[i] = w[i] | o.w[i]; return r; }
  Bits256 operator~() const { Bits256 r; for (int i = 0; i < 4; i++) r.w[i] = ~w[i]; return r; }
};

struct Expr {
  EOp op;
  uint8_t w;         // width in bits, 1..64
  int32_t var;       // -1: constant, >=0: depends on exactly that byte variable, -2: on several
  uint32_t id;
  uint32_t vs;       // interned variable set
  uint64_t c;        // constant / var index / extract offset / domain index / lut index
  const Expr *k[3];
  uint64_t *tab;     // cached table of 256 values (single variable)
  mutable uint64_t evalv;
  mutable uint32_t evals;
};
typedef const Expr *E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sxt(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct Ctx {
  std::deque<Expr> arena;
  std::unordered_multimap<uint64_t, E> tbl;
  std::vector<Bits256> doms;
  std::unordered_multimap<uint64_t, uint32_t> domtbl;
  std::vector<std::array<uint64_t, 256>> luts;
  std::unordered_multimap<uint64_t, uint32_t> luttbl;
  std::vector<std::vector<int>> vsets;
  std::unordered_map<std::string, uint32_t> vstbl;
  std::unordered_map<uint64_t, uint32_t> vsunion;
  std::unordered_map<uint64_t, E> consts;
  std::vector<E> vars;
  E T, F;
  uint64_t ntab = 0;
  Ctx() {
    vsets.push_back({});
    vstbl[""] = 0;
    T = cst(1, 1);
    F = cst(0, 1);
  }
  uint32_t vsIntern(const std::vector<int> &v) {
    std::string key((const char *)v.data(), v.size() * sizeof(int));
    auto it = vstbl.find(key);
    if (it != vstbl.end()) return it->second;
    uint32_t id = vsets.size();
    vsets.push_back(v);
    vstbl[key] = id;
    return id;
  }
  uint32_t vsUnion(uint32_t a, uint32_t b) {
    if (a == b || b == 0) return a;
    if (a == 0) return b;
    if (a > b) std::swap(a, b);
    uint64_t key = ((uint64_t)a << 32) | b;
    auto it = vsunion.find(key);
    if (it != vsunion.end()) return it->second;
    std::vector<int> r;
    std::set_union(vsets[a].begin(), vsets[a].end(), vsets[b].begin(), vsets[b].end(), std::back_inserter(r));
    uint32_t id = vsIntern(r);
    vsunion[key] = id;
    return id;
  }
  static uint64_t mix(uint64_t h, uint64_t x) {
    h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
  }
  E raw(EOp op, unsigned w, uint64_t c, E a = nullptr, E b = nullptr, E d = nullptr) {
    uint64_t h = mix(mix(mix(op * 131 + w, c), a ? a->id + 1 : 0), b ? b->id + 1 : 0);
    h = mix(h, d ? d->id + 1 : 0);
    auto r = tbl.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
      E e = it->second;
      if (e->op == op && e->w == w && e->c == c && e->k[0] == a && e->k[1] == b && e->k[2] == d) return e;
    }
    arena.emplace_back();
    Expr &x = arena.back();
    x.op = op; x.w = w; x.c = c; x.k[0] = a; x.k[1] = b; x.k[2] = d;
    x.id = arena.size(); x.tab = nullptr; x.evals = 0; x.evalv = 0;
    x.vs = 0;
    for (int i = 0; i < 3; i++) if (x.k[i]) x.vs = vsUnion(x.vs, x.k[i]->vs);
    if (op == E_VAR || op == E_IN || op == E_LUT) {
      int v = op == E_VAR ? (int)c : (int)(c >> 32);
      x.vs = vsIntern({v});
    }
    auto &vv = vsets[x.vs];
    x.var = vv.empty() ? -1 : vv.size() == 1 ? vv[0] : -2;
    tbl.emplace(h, &x);
    return &x;
  }
  E cst(uint64_t v, unsigned w) {
    v &= maskw(w);
    if (v < (1ull << 57)) {
      uint64_t key = (v << 7) | w;
      auto it = consts.find(key);
      if (it != consts.end()) return it->second;
      E e = raw(E_CONST, w, v);
      consts[key] = e;
      return e;
    }
    return raw(E_CONST, w, v);
  }
  E newVar() {
    E e = raw(E_VAR, 8, vars.size());
    vars.push_back(e);
    return e;
  }
  uint32_t domIntern(const Bits256 &b) {
    uint64_t h = mix(mix(mix(b.w[0], b.w[1]), b.w[2]), b.w[3]);
    auto r = domtbl.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) if (doms[it->second] == b) return it->second;
    uint32_t id = doms.size();
    doms.push_back(b);
    domtbl.emplace(h, id);
    return id;
  }
  uint32_t lutIntern(const std::array<uint64_t, 256> &b) {
    uint64_t h = 1;
    for (auto x : b) h = mix(h, x);
    auto r = luttbl.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) if (luts[it->second] == b) return it->second;
    uint32_t id = luts.size();
    luts.push_back(b);
    luttbl.emplace(h, id);
    return id;
  }
  E in(int var, const Bits256 &b) {
    if (b.empty()) return F;
    if (b.full()) return T;
    return raw(E_IN, 1, ((uint64_t)var << 32) | domIntern(b));
  }
  E lut(int var, unsigned w, const std::array<uint64_t, 256> &b) {
    return raw(E_LUT, w, ((uint64_t)var << 32) | lutIntern(b));
  }
  static uint64_t fold(EOp op, unsigned w, uint64_t a, uint64_t b, unsigned kw) {
    uint64_t m = maskw(w);
    switch (op) {
    case E_ADD: return (a + b) & m;
    case E_SUB: return (a - b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? a / b : m;
    case E_UREM: return b ? a % b : a;
    case E_SDIV: { int64_t x = sxt(a, w), y = sxt(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
    case E_SREM: { int64_t x = sxt(a, w), y = sxt(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return (a ^ b) & m;
    case E_SHL: return b >= w ? 0 : (a << b) & m;
    case E_LSHR: return b >= w ? 0 : (a >> b);
    case E_ASHR: { int64_t x = sxt(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sxt(a, kw) < sxt(b, kw);
    case E_SLE: return sxt(a, kw) <= sxt(b, kw);
    default: abort();
    }
  }
  // 256-entry value table of a single-variable expression
  const uint64_t *table(E e) {
    Expr *x = const_cast<Expr *>(e);
    if (x->tab) return x->tab;
    uint64_t *t = (uint64_t *)malloc(256 * 8);
    ntab++;
    switch (x->op) {
    case E_CONST: for (int i = 0; i < 256; i++) t[i] = x->c; break;
    case E_VAR: for (int i = 0; i < 256; i++) t[i] = i; break;
    case E_IN: { const Bits256 &b = doms[x->c & 0xffffffff]; for (int i = 0; i < 256; i++) t[i] = b.get(i); break; }
    case E_LUT: { auto &b = luts[x->c & 0xffffffff]; for (int i = 0; i < 256; i++) t[i] = b[i]; break; }
    case E_NOT: { auto a = table(x->k[0]); for (int i = 0; i < 256; i++) t[i] = ~a[i] & maskw(x->w); break; }
    case E_ITE: { auto a = table(x->k[0]), b = table(x->k[1]), c = table(x->k[2]); for (int i = 0; i < 256; i++) t[i] = a[i] ? b[i] : c[i]; break; }
    case E_CONCAT: { auto a = table(x->k[0]), b = table(x->k[1]); unsigned sh = x->k[1]->w; for (int i = 0; i < 256; i++) t[i] = (a[i] << sh) | b[i]; break; }
    case E_EXTRACT: { auto a = table(x->k[0]); for (int i = 0; i < 256; i++) t[i] = (a[i] >> x->c) & maskw(x->w); break; }
    case E_ZEXT: { auto a = table(x->k[0]); for (int i = 0; i < 256; i++) t[i] = a[i]; break; }
    case E_SEXT: { auto a = table(x->k[0]); for (int i = 0; i < 256; i++) t[i] = (uint64_t)sxt(a[i], x->k[0]->w) & maskw(x->w); break; }
    default: { auto a = table(x->k[0]), b = table(x->k[1]); for (int i = 0; i < 256; i++) t[i] = fold(x->op, x->w, a[i], b[i], x->k[0]->w); break; }
    }
    x->tab = t;
    return t;
  }
  // canonicalise: single-variable booleans become IN
  E canon(E e) {
    if (e->w == 1 && e->var >= 0 && e->op != E_IN) {
      const uint64_t *t = table(e);
      Bits256 b;
      for (int i = 0; i < 256; i++) if (t[i] & 1) b.set(i);
      return in(e->var, b);
    }
    if (e->var >= 0 && e->w > 1 && e->op != E_VAR) {
      const uint64_t *t = table(e);
      bool same = true;
      for (int i = 1; i < 256; i++) if (t[i] != t[0]) { same = false; break; }
      if (same) return cst(t[0], e->w);
    }
    return e;
  }
  bool isC(E e) const { return e->op == E_CONST; }
  E bin(EOp op, E a, E b) {
    bool cmp = op >= E_EQ && op <= E_SLE;
    unsigned w = cmp ? 1 : a->w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
    if (isC(a) && isC(b)) return cst(fold(op, w, a->c, b->c, a->w), w);
    bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    if (comm && isC(a)) std::swap(a, b);
    uint64_t m = maskw(a->w);
    if (isC(b)) {
      uint64_t c = b->c;
      switch (op) {
      case E_ADD: case E_SUB: case E_OR: case E_XOR: case E_SHL: case E_LSHR: case E_ASHR:
        if (c == 0) return a;
        break;
      default: break;
      }
      if (op == E_OR && c == m) return b;
      if (op == E_AND && c == 0) return b;
      if (op == E_AND && c == m) return a;
      if (op == E_MUL && c == 0) return b;
      if (op == E_MUL && c == 1) return a;
      if ((op == E_UDIV || op == E_SDIV) && c == 1) return a;
      if (op == E_XOR && c == m && a->w == 1) return notE(a);
      if ((op == E_SHL || op == E_LSHR) && c >= a->w) return cst(0, a->w);
      if (op == E_ADD && a->op == E_ADD && isC(a->k[1])) return bin(E_ADD, a->k[0], cst(a->k[1]->c + c, a->w));
      if (op == E_SUB) return bin(E_ADD, a, cst(0 - c, a->w));
      if (op == E_AND && a->op == E_ZEXT && (c & maskw(a->k[0]->w)) == maskw(a->k[0]->w)) return a;
      if (op == E_AND && (c & (c + 1)) == 0) { // low mask
        unsigned n = __builtin_popcountll(c);
        return zext(extract(a, 0, n), a->w);
      }
      if (op == E_SHL && c % 8 == 0 && a->var == -2) {
        return concat(extract(a, 0, a->w - c), cst(0, c));
      }
      if (op == E_LSHR) return zext(extract(a, c, a->w - c), a->w);
      if (op == E_EQ) {
        if (a->w == 1) return c ? a : notE(a);
        if (a->op == E_ZEXT) {
          if (c > maskw(a->k[0]->w)) return F;
          return bin(E_EQ, a->k[0], cst(c, a->k[0]->w));
        }
        if (a->op == E_SEXT) {
          uint64_t t = c & maskw(a->k[0]->w);
          if (((uint64_t)sxt(t, a->k[0]->w) & m) != c) return F;
          return bin(E_EQ, a->k[0], cst(t, a->k[0]->w));
        }
        if (a->op == E_ADD && isC(a->k[1])) return bin(E_EQ, a->k[0], cst(c - a->k[1]->c, a->w));
        if (a->op == E_ITE) {
          E x = a->k[1], y = a->k[2];
          if (isC(x) || isC(y)) {
            E ex = bin(E_EQ, x, b), ey = bin(E_EQ, y, b);
            return ite(a->k[0], ex, ey);
          }
        }
        if (a->op == E_CONCAT) {
          unsigned lw = a->k[1]->w;
          return andE(bin(E_EQ, a->k[0], cst(c >> lw, a->k[0]->w)), bin(E_EQ, a->k[1], cst(c, lw)));
        }
      }
      if (op == E_SLT && c == 0 && a->w > 1) return extract(a, a->w - 1, 1);
      if (op == E_SLE && c == m && a->w > 1) return extract(a, a->w - 1, 1);
      if (op == E_ULT && c == 0) return F;
      if (op == E_ULT && a->op == E_ZEXT) {
        if (c > maskw(a->k[0]->w)) return T;
        return bin(E_ULT, a->k[0], cst(c, a->k[0]->w));
      }
      if (op == E_ULE && a->op == E_ZEXT) {
        if (c >= maskw(a->k[0]->w)) return T;
        return bin(E_ULE, a->k[0], cst(c, a->k[0]->w));
      }
      if ((op == E_SLT || op == E_SLE) && a->op == E_ZEXT && a->k[0]->w < a->w) {
        if (sxt(c, a->w) < 0) return F;
        return bin(op == E_SLT ? E_ULT : E_ULE, a, b);
      }
    }
    if (isC(a)) {
      if (op == E_SLT && a->c == m && a->w > 1) return notE(extract(b, b->w - 1, 1));
      if (op == E_SLE && a->c == 0 && a->w > 1) return notE(extract(b, b->w - 1, 1));
      if ((op == E_ULT || op == E_ULE) && b->op == E_ZEXT) {
        uint64_t km = maskw(b->k[0]->w);
        if (op == E_ULE) { if (a->c > km) return F; if (a->c == 0) return T; return bin(E_ULE, cst(a->c, b->k[0]->w), b->k[0]); }
        if (a->c >= km) return F;
        return bin(E_ULT, cst(a->c, b->k[0]->w), b->k[0]);
      }
      if ((op == E_SLT || op == E_SLE) && b->op == E_ZEXT && b->k[0]->w < b->w) {
        if (sxt(a->c, a->w) < 0) return T;
        return bin(op == E_SLT ? E_ULT : E_ULE, a, b);
      }
      if ((op == E_SHL || op == E_LSHR || op == E_UDIV || op == E_UREM || op == E_SREM) && a->c == 0) return a;
    }
    if (op == E_SUB && isC(a) && a->c == 0 && b->op == E_SUB && isC(b->k[0]) && b->k[0]->c == 0) return b->k[1];
    if (op == E_EQ) { // -x == y: put the negation on the later term, so that equal facts look alike
      auto neg = [&](E x) { return x->op == E_SUB && isC(x->k[0]) && x->k[0]->c == 0; };
      if (neg(a) && neg(b)) return bin(E_EQ, a->k[1], b->k[1]);
      E x = neg(a) ? a : neg(b) ? b : nullptr;
      if (x) {
        E y = x == a ? b : a;
        if (!isC(y) && x->k[1]->id < y->id) return bin(E_EQ, x->k[1], bin(E_SUB, cst(0, y->w), y));
      }
    }
    if (a == b) {
      switch (op) {
      case E_SUB: case E_XOR: return cst(0, a->w);
      case E_AND: case E_OR: return a;
      case E_EQ: case E_ULE: case E_SLE: return T;
      case E_ULT: case E_SLT: return F;
      default: break;
      }
    }
    if (w == 1 && !cmp) {
      if (op == E_AND) return andE(a, b);
      if (op == E_OR) return orE(a, b);
    }
    if (a->w == 1 && op == E_EQ) return notE(raw(E_XOR, 1, 0, a, b));
    if (op == E_EQ && a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return bin(E_EQ, a->k[0], b->k[0]);
    if (op == E_EQ && a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return bin(E_EQ, a->k[0], b->k[0]);
    if (op == E_OR && a->w > 1) { // disjoint or of zero extended / shifted pieces: concat
      E x = a, y = b;
      for (int i = 0; i < 2; i++, std::swap(x, y))
        if (x->op == E_CONCAT && isC(x->k[1]) && x->k[1]->c == 0 && y->op == E_ZEXT && y->k[0]->w <= x->k[1]->w)
          return concat(x->k[0], zext(y->k[0], x->k[1]->w));
    }
    return canon(raw(op, w, 0, a, b));
  }
  E notE(E a) {
    if (isC(a)) return a->c ? F : T;
    if (a->op == E_NOT) return a->k[0];
    if (a->op == E_IN) return in(a->var, ~doms[a->c & 0xffffffff]);
    return canon(raw(E_NOT, 1, 0, a));
  }
  E andE(E a, E b) {
    if (isC(a)) return a->c ? b : F;
    if (isC(b)) return b->c ? a : F;
    if (a == b) return a;
    if (a->op == E_NOT && a->k[0] == b) return F;
    if (b->op == E_NOT && b->k[0] == a) return F;
    if (a->op == E_IN && b->op == E_IN && a->var == b->var)
      return in(a->var, doms[a->c & 0xffffffff] & doms[b->c & 0xffffffff]);
    if (a->id > b->id) std::swap(a, b);
    return canon(raw(E_AND, 1, 0, a, b));
  }
  E orE(E a, E b) {
    if (isC(a)) return a->c ? T : b;
    if (isC(b)) return b->c ? T : a;
    if (a == b) return a;
    if (a->op == E_NOT && a->k[0] == b) return T;
    if (b->op == E_NOT && b->k[0] == a) return T;
    if (a->op == E_IN && b->op == E_IN && a->var == b->var)
      return in(a->var, doms[a->c & 0xffffffff] | doms[b->c & 0xffffffff]);
    if (a->id > b->id) std::swap(a, b);
    return canon(raw(E_OR, 1, 0, a, b));
  }
  E ite(E c, E a, E b) {
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
      if (isC(a) && isC(b)) return a->c ? c : notE(c);
      if (isC(a)) return a->c ? orE(c, b) : andE(notE(c), b);
      if (isC(b)) return b->c ? orE(notE(c), a) : andE(c, a);
    }
    if (c->op == E_NOT) return ite(c->k[0], b, a);
    return canon(raw(E_ITE, a->w, 0, c, a, b));
  }
  E extract(E a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    if (isC(a)) return cst(a->c >> off, w);
    switch (a->op) {
    case E_EXTRACT: return extract(a->k[0], off + a->c, w);
    case E_ZEXT: {
      unsigned iw = a->k[0]->w;
      if (off >= iw) return cst(0, w);
      if (off + w <= iw) return extract(a->k[0], off, w);
      if (off == 0) return zext(a->k[0], w);
      return zext(extract(a->k[0], off, iw - off), w);
    }
    case E_SEXT: {
      unsigned iw = a->k[0]->w;
      if (off + w <= iw) return extract(a->k[0], off, w);
      if (off == 0) return sext(a->k[0], w);
      break;
    }
    case E_CONCAT: {
      unsigned lw = a->k[1]->w;
      if (off >= lw) return extract(a->k[0], off - lw, w);
      if (off + w <= lw) return extract(a->k[1], off, w);
      return concat(extract(a->k[0], 0, off + w - lw), extract(a->k[1], off, lw - off));
    }
    case E_ITE:
      if (isC(a->k[1]) || isC(a->k[2])) return ite(a->k[0], extract(a->k[1], off, w), extract(a->k[2], off, w));
      break;
    case E_AND: case E_OR: case E_XOR:
      return bin(a->op, extract(a->k[0], off, w), extract(a->k[1], off, w));
    case E_ADD: case E_SUB: case E_MUL:
      if (off == 0) return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
      break;
    default: break;
    }
    return canon(raw(E_EXTRACT, w, off, a));
  }
  E concat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return cst((hi->c << lo->w) | lo->c, w);
    if (isC(hi) && hi->c == 0) return zext(lo, w);
    if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w)
      return extract(lo->k[0], lo->c, w);
    if (hi->op == E_EXTRACT) { // the low part may have been narrowed arithmetically
      E x = hi->k[0];
      if (x->op == E_SEXT && hi->c == lo->w && extract(x, 0, lo->w) == lo) return extract(x, 0, w);
      if (hi->c >= lo->w && (x->op == E_ADD || x->op == E_SUB || x->op == E_MUL) && hi->c == lo->w && extract(x, 0, lo->w) == lo) return extract(x, 0, w);
      if (lo->op == E_CONCAT && hi->c == lo->w && (x->op == E_ADD || x->op == E_SUB || x->op == E_MUL) && extract(x, 0, lo->w) == lo) return extract(x, 0, w);
    }
    if (lo->op == E_CONCAT) { // right-nest: (hi . (a . b)) keep
      if (hi->op == E_EXTRACT && lo->k[0]->op == E_EXTRACT && hi->k[0] == lo->k[0]->k[0] && hi->c == lo->k[0]->c + lo->k[0]->w)
        return concat(extract(hi->k[0], lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
    }
    return canon(raw(E_CONCAT, w, 0, hi, lo));
  }
  E zext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return cst(a->c, w);
    if (a->op == E_ZEXT) return zext(a->k[0], w);
    return raw(E_ZEXT, w, 0, a);
  }
  E sext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return cst((uint64_t)sxt(a->c, a->w), w);
    if (a->op == E_SEXT) return sext(a->k[0], w);
    if (a->op == E_ZEXT && a->k[0]->w < a->w) return zext(a->k[0], w);
    return raw(E_SEXT, w, 0, a);
  }
  uint32_t stamp = 1;
  uint64_t eval(E e, const std::vector<uint8_t> &m) { stamp++; return ev(e, m); }
  uint64_t ev(E e, const std::vector<uint8_t> &m) {
    if (e->op == E_CONST) return e->c;
    if (e->evals == stamp) return e->evalv;
    uint64_t r;
    if (e->var >= 0 && e->tab) r = e->tab[m[e->var]];
    else switch (e->op) {
      case E_VAR: r = m[e->c]; break;
      case E_IN: r = doms[e->c & 0xffffffff].get(m[e->var]); break;
      case E_LUT: r = luts[e->c & 0xffffffff][m[e->var]]; break;
      case E_NOT: r = ~ev(e->k[0], m) & maskw(e->w); break;
      case E_ITE: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
      case E_CONCAT: r = (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m); break;
      case E_EXTRACT: r = (ev(e->k[0], m) >> e->c) & maskw(e->w); break;
      case E_ZEXT: r = ev(e->k[0], m); break;
      case E_SEXT: r = (uint64_t)sxt(ev(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
      default: { uint64_t a = ev(e->k[0], m), b = ev(e->k[1], m); r = fold(e->op, e->w, a, b, e->k[0]->w); }
      }
    e->evalv = r;
    e->evals = stamp;
    return r;
  }
};

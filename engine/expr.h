// Hash-consed bit-vector expression DAG with local simplification and
// on-demand translation to Z3.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

enum Kind : uint8_t {
  K_CONST, K_SYM, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE,
  K_UMULO, K_SMULO,
  // floating point (opaque to Z3; resolved before reaching the solver)
  K_F_UI2F, K_F_SI2F, K_F_UN, K_F_BIN, K_F_CVT, K_F_CMP
};
enum FOp { F_NEG, F_LOG2, F_CEIL, F_FLOOR, F_TRUNC, F_ROUND, F_SQRT, F_FABS, F_LOG, F_EXP2, F_LOG10,
           F_ADD, F_SUB, F_MUL, F_DIV, F_MIN, F_MAX };

struct Expr {
  Kind k;
  uint8_t w;        // width in bits (1..64)
  bool fp;          // contains an FP node
  uint32_t id;
  uint64_t v;       // const value / symbol id / extract offset / fp op
  const Expr *a, *b, *c;
  const std::vector<uint32_t>* syms;  // sorted symbol ids
};
typedef const Expr* E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sxt(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

struct ExprCtx {
  struct Key { Kind k; uint8_t w; uint64_t v; E a, b, c; };
  struct H { size_t operator()(const Key& x) const {
    uint64_t h = x.k * 0x9E3779B97F4A7C15ull + x.w;
    auto mix = [&](uint64_t y) { h ^= y + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(x.v); mix(x.a ? x.a->id + 1 : 0); mix(x.b ? x.b->id + 1 : 0); mix(x.c ? x.c->id + 1 : 0);
    return h; } };
  struct Q { bool operator()(const Key& x, const Key& y) const {
    return x.k == y.k && x.w == y.w && x.v == y.v && x.a == y.a && x.b == y.b && x.c == y.c; } };
  std::unordered_map<Key, E, H, Q> tab;
  std::vector<std::vector<uint32_t>*> symsets;
  const std::vector<uint32_t> empty;
  uint32_t next = 0;

  struct SymInfo { std::string name; unsigned w; };
  std::vector<SymInfo> syminfo;

  const std::vector<uint32_t>* unite(const std::vector<uint32_t>* x, const std::vector<uint32_t>* y) {
    if (x == y || y->empty()) return x;
    if (x->empty()) return y;
    // subset tests
    auto sub = [](const std::vector<uint32_t>* p, const std::vector<uint32_t>* q) {
      size_t j = 0;
      for (uint32_t i : *p) { while (j < q->size() && (*q)[j] < i) j++; if (j >= q->size() || (*q)[j] != i) return false; }
      return true; };
    if (sub(y, x)) return x;
    if (sub(x, y)) return y;
    auto* r = new std::vector<uint32_t>();
    size_t i = 0, j = 0;
    while (i < x->size() || j < y->size()) {
      if (j >= y->size() || (i < x->size() && (*x)[i] < (*y)[j])) r->push_back((*x)[i++]);
      else if (i >= x->size() || (*y)[j] < (*x)[i]) r->push_back((*y)[j++]);
      else { r->push_back((*x)[i]); i++; j++; }
    }
    return r;
  }
  E mk(Kind k, unsigned w, uint64_t v, E a = nullptr, E b = nullptr, E c = nullptr) {
    Key key{k, (uint8_t)w, v, a, b, c};
    auto it = tab.find(key);
    if (it != tab.end()) return it->second;
    Expr* e = new Expr();
    e->k = k; e->w = (uint8_t)w; e->v = v; e->a = a; e->b = b; e->c = c; e->id = next++;
    e->fp = (k >= K_F_UI2F) || (a && a->fp) || (b && b->fp) || (c && c->fp);
    if (k == K_SYM) e->syms = new std::vector<uint32_t>{(uint32_t)v};
    else {
      const std::vector<uint32_t>* s = &empty;
      if (a) s = unite(s, a->syms);
      if (b) s = unite(s, b->syms);
      if (c) s = unite(s, c->syms);
      e->syms = s;
    }
    tab.emplace(key, e);
    return e;
  }
  E C(uint64_t v, unsigned w) { return mk(K_CONST, w, v & maskw(w)); }
  E T() { return C(1, 1); }
  E F() { return C(0, 1); }
  E sym(const std::string& name, unsigned w) {
    syminfo.push_back({name, w});
    return mk(K_SYM, w, syminfo.size() - 1);
  }
  static bool ic(E e) { return e->k == K_CONST; }
  static bool ic(E e, uint64_t v) { return e->k == K_CONST && e->v == (v & maskw(e->w)); }

  E Not(E a) { return Xor(a, C(1, 1)); }
  bool isNot(E a) { return a->k == K_XOR && a->w == 1 && ic(a->b, 1); }

  E Extract(E a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    switch (a->k) {
      case K_CONST: return C(a->v >> off, w);
      case K_EXTRACT: return Extract(a->a, (unsigned)a->v + off, w);
      case K_CONCAT: {  // a = hi, b = lo
        unsigned lw = a->b->w;
        if (off >= lw) return Extract(a->a, off - lw, w);
        if (off + w <= lw) return Extract(a->b, off, w);
        return Concat(Extract(a->a, 0, off + w - lw), Extract(a->b, off, lw - off));
      }
      case K_ZEXT: {
        unsigned iw = a->a->w;
        if (off >= iw) return C(0, w);
        if (off + w <= iw) return Extract(a->a, off, w);
        return ZExt(Extract(a->a, off, iw - off), w);
      }
      case K_SEXT: {
        unsigned iw = a->a->w;
        if (off + w <= iw) return Extract(a->a, off, w);
        break;
      }
      case K_ITE:
        if (ic(a->b) || ic(a->c)) return Ite(a->a, Extract(a->b, off, w), Extract(a->c, off, w));
        break;
      case K_AND: if (ic(a->b)) return And(Extract(a->a, off, w), Extract(a->b, off, w)); break;
      case K_OR: return Or(Extract(a->a, off, w), Extract(a->b, off, w));
      case K_XOR: if (ic(a->b)) return Xor(Extract(a->a, off, w), Extract(a->b, off, w)); break;
      default: break;
    }
    return mk(K_EXTRACT, w, off, a);
  }
  E Concat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    assert(w <= 64);
    if (ic(hi) && ic(lo)) return C((hi->v << lo->w) | lo->v, w);
    if (ic(hi, 0)) return ZExt(lo, w);
    if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->v == lo->v + lo->w)
      return Extract(hi->a, (unsigned)lo->v, w);
    if (hi->k == K_EXTRACT && hi->a == lo && hi->v == lo->w) return Extract(lo, 0, w);
    if (hi->k == K_ZEXT) return ZExt(Concat(hi->a, lo), w);
    // concat(extract(x,o,..), concat(extract(x,...), r))
    if (lo->k == K_CONCAT && hi->k == K_EXTRACT && lo->a->k == K_EXTRACT && lo->a->a == hi->a && hi->v == lo->a->v + lo->a->w)
      return Concat(Extract(hi->a, (unsigned)lo->a->v, hi->w + lo->a->w), lo->b);
    if (hi->k == K_CONCAT) return Concat(hi->a, Concat(hi->b, lo));
    if (lo->k == K_ZEXT && hi->k == K_EXTRACT && false) return nullptr;
    return mk(K_CONCAT, w, 0, hi, lo);
  }
  E ZExt(E a, unsigned w) {
    if (w == a->w) return a;
    if (ic(a)) return C(a->v, w);
    if (a->k == K_ZEXT) return ZExt(a->a, w);
    return mk(K_ZEXT, w, 0, a);
  }
  E SExt(E a, unsigned w) {
    if (w == a->w) return a;
    if (ic(a)) return C((uint64_t)sxt(a->v, a->w), w);
    if (a->k == K_ZEXT) return ZExt(a->a, w);
    if (a->k == K_SEXT) return SExt(a->a, w);
    return mk(K_SEXT, w, 0, a);
  }
  E Trunc(E a, unsigned w) { return Low(a, w); }

  E Add(E a, E b) {
    unsigned w = a->w;
    if (ic(a) && ic(b)) return C(a->v + b->v, w);
    if (ic(a)) std::swap(a, b);
    if (ic(b, 0)) return a;
    if (ic(b) && a->k == K_ADD && ic(a->b)) return Add(a->a, C(a->b->v + b->v, w));
    if (ic(b) && a->k == K_ITE && (ic(a->b) && ic(a->c))) return Ite(a->a, Add(a->b, b), Add(a->c, b));
    if (a->k == K_ADD && ic(a->b)) return Add(Add(a->a, b), a->b);
    if (b->k == K_ADD && ic(b->b)) return Add(Add(a, b->a), b->b);
    if (!ic(b) && a->id > b->id) std::swap(a, b);
    return mk(K_ADD, w, 0, a, b);
  }
  E Sub(E a, E b) {
    unsigned w = a->w;
    if (a == b) return C(0, w);
    if (ic(b)) return Add(a, C(0 - b->v, w));
    if (a->k == K_ADD && a->a == b) return a->b;
    if (a->k == K_ADD && a->b == b) return a->a;
    return mk(K_SUB, w, 0, a, b);
  }
  E Mul(E a, E b) {
    unsigned w = a->w;
    if (ic(a) && ic(b)) return C(a->v * b->v, w);
    if (ic(a)) std::swap(a, b);
    if (ic(b, 0)) return b;
    if (ic(b, 1)) return a;
    if (ic(b) && (b->v & (b->v - 1)) == 0) { unsigned s = __builtin_ctzll(b->v); return Shl(a, C(s, w)); }
    if (!ic(b) && a->id > b->id) std::swap(a, b);
    return mk(K_MUL, w, 0, a, b);
  }
  E UDiv(E a, E b) {
    if (ic(a) && ic(b) && b->v) return C(a->v / b->v, a->w);
    if (ic(b, 1)) return a;
    if (ic(b) && b->v && (b->v & (b->v - 1)) == 0) return LShr(a, C(__builtin_ctzll(b->v), a->w));
    return mk(K_UDIV, a->w, 0, a, b);
  }
  E URem(E a, E b) {
    if (ic(a) && ic(b) && b->v) return C(a->v % b->v, a->w);
    if (ic(b) && b->v && (b->v & (b->v - 1)) == 0) return And(a, C(b->v - 1, a->w));
    return mk(K_UREM, a->w, 0, a, b);
  }
  E SDiv(E a, E b) {
    if (ic(a) && ic(b) && b->v) { int64_t x = sxt(a->v, a->w), y = sxt(b->v, b->w); return y == -1 ? C(0 - a->v, a->w) : C((uint64_t)(x / y), a->w); }
    if (ic(b, 1)) return a;
    return mk(K_SDIV, a->w, 0, a, b);
  }
  E SRem(E a, E b) {
    if (ic(a) && ic(b) && b->v) { int64_t x = sxt(a->v, a->w), y = sxt(b->v, b->w); return y == -1 ? C(0, a->w) : C((uint64_t)(x % y), a->w); }
    return mk(K_SREM, a->w, 0, a, b);
  }
  E And(E a, E b) {
    unsigned w = a->w;
    if (ic(a) && ic(b)) return C(a->v & b->v, w);
    if (a == b) return a;
    if (ic(a)) std::swap(a, b);
    if (ic(b, 0)) return b;
    if (ic(b) && b->v == maskw(w)) return a;
    if (ic(b)) {
      if (a->k == K_AND && ic(a->b)) return And(a->a, C(a->b->v & b->v, w));
      // low mask -> zext(extract)
      if (((b->v + 1) & b->v) == 0) { unsigned n = 64 - __builtin_clzll(b->v); return ZExt(Extract(a, 0, n), w); }
      if (a->k == K_ZEXT) { uint64_t m = b->v & maskw(a->a->w); return ZExt(And(a->a, C(m, a->a->w)), w); }
      if (a->k == K_ITE && ic(a->b) && ic(a->c)) return Ite(a->a, And(a->b, b), And(a->c, b));
      // high mask (trailing zeros)
      unsigned tz = __builtin_ctzll(b->v);
      if (tz > 0 && b->v == (maskw(w) & ~maskw(tz))) return Concat(Extract(a, tz, w - tz), C(0, tz));
    }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return ZExt(And(a->a, b->a), w);
    if (w == 1) {
      if (isNot(a) && a->a == b) return C(0, 1);
      if (isNot(b) && b->a == a) return C(0, 1);
    }
    if (!ic(b) && a->id > b->id) std::swap(a, b);
    return mk(K_AND, w, 0, a, b);
  }
  // known-zero mask (bits certainly zero), shallow
  uint64_t zeros(E a, int d = 0) {
    uint64_t m = maskw(a->w);
    if (d > 6) return 0;
    switch (a->k) {
      case K_CONST: return ~a->v & m;
      case K_ZEXT: return (m & ~maskw(a->a->w)) | zeros(a->a, d + 1);
      case K_CONCAT: return ((zeros(a->a, d + 1) << a->b->w) | zeros(a->b, d + 1)) & m;
      case K_AND: return zeros(a->a, d + 1) | zeros(a->b, d + 1);
      case K_OR: case K_XOR: return zeros(a->a, d + 1) & zeros(a->b, d + 1);
      case K_ITE: return zeros(a->b, d + 1) & zeros(a->c, d + 1);
      case K_MUL: {
        uint64_t za = zeros(a->a, d + 1), zb = zeros(a->b, d + 1);
        unsigned t = 0; uint64_t i1 = ~za, i2 = ~zb;
        t = (i1 ? __builtin_ctzll(i1) : 64) + (i2 ? __builtin_ctzll(i2) : 64);
        return t >= a->w ? m : maskw(t);
      }
      case K_ADD: {
        uint64_t z = zeros(a->a, d + 1) & zeros(a->b, d + 1);
        uint64_t i = ~z; unsigned t = i ? __builtin_ctzll(i) : 64;
        return t >= a->w ? m : maskw(t);
      }
      case K_SHL: if (ic(a->b) && a->b->v < a->w) return ((zeros(a->a, d + 1) << a->b->v) | maskw(a->b->v)) & m; return 0;
      default: return 0;
    }
  }
  E Or(E a, E b) {
    unsigned w = a->w;
    if (ic(a) && ic(b)) return C(a->v | b->v, w);
    if (a == b) return a;
    if (ic(a)) std::swap(a, b);
    if (ic(b, 0)) return a;
    if (ic(b) && b->v == maskw(w)) return b;
    if (w == 1) {
      if (isNot(a) && a->a == b) return C(1, 1);
      if (isNot(b) && b->a == a) return C(1, 1);
    }
    // (hi:0) | zext(lo)  ->  concat
    for (int s = 0; s < 2; s++) {
      E x = s ? b : a, y = s ? a : b;
      if (x->k == K_CONCAT && ic(x->b, 0) && y->k == K_ZEXT && y->a->w <= x->b->w)
        return Concat(x->a, ZExt(y->a, x->b->w));
      if (x->k == K_ZEXT && x->a->k == K_CONCAT && ic(x->a->b, 0) && y->k == K_ZEXT && y->a->w <= x->a->b->w)
        return ZExt(Concat(x->a->a, ZExt(y->a, x->a->b->w)), w);
    }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return ZExt(Or(a->a, b->a), w);
    if (!ic(b) && a->id > b->id) std::swap(a, b);
    return mk(K_OR, w, 0, a, b);
  }
  E Xor(E a, E b) {
    unsigned w = a->w;
    if (ic(a) && ic(b)) return C(a->v ^ b->v, w);
    if (a == b) return C(0, w);
    if (ic(a)) std::swap(a, b);
    if (ic(b, 0)) return a;
    if (ic(b) && a->k == K_XOR && ic(a->b)) return Xor(a->a, C(a->b->v ^ b->v, w));
    if (w == 1 && ic(b, 1)) {
      if (a->k == K_ULT) return Ule(a->b, a->a);
      if (a->k == K_ULE) return Ult(a->b, a->a);
      if (a->k == K_SLT) return Sle(a->b, a->a);
      if (a->k == K_SLE) return Slt(a->b, a->a);
      if (a->k == K_ITE && (ic(a->b) || ic(a->c))) return Ite(a->a, Not(a->b), Not(a->c));
    }
    if (a->k == K_ZEXT && ic(b) && (b->v & ~maskw(a->a->w)) == 0) return ZExt(Xor(a->a, C(b->v, a->a->w)), w);
    if (!ic(b) && a->id > b->id) std::swap(a, b);
    return mk(K_XOR, w, 0, a, b);
  }
  E Shl(E a, E b) {
    unsigned w = a->w;
    if (ic(b)) {
      if (b->v == 0) return a;
      if (b->v >= w) return C(0, w);
      if (ic(a)) return C(a->v << b->v, w);
      return Concat(Extract(a, 0, w - (unsigned)b->v), C(0, (unsigned)b->v));
    }
    if (ic(a, 0)) return a;
    return mk(K_SHL, w, 0, a, b);
  }
  E LShr(E a, E b) {
    unsigned w = a->w;
    if (ic(b)) {
      if (b->v == 0) return a;
      if (b->v >= w) return C(0, w);
      if (ic(a)) return C(a->v >> b->v, w);
      return ZExt(Extract(a, (unsigned)b->v, w - (unsigned)b->v), w);
    }
    if (ic(a, 0)) return a;
    return mk(K_LSHR, w, 0, a, b);
  }
  E AShr(E a, E b) {
    unsigned w = a->w;
    if (ic(b)) {
      if (b->v == 0) return a;
      uint64_t s = b->v >= w ? w - 1 : b->v;
      if (ic(a)) return C((uint64_t)(sxt(a->v, w) >> s), w);
      return SExt(Extract(a, (unsigned)s, w - (unsigned)s), w);
    }
    return mk(K_ASHR, w, 0, a, b);
  }
  // --- signed value ranges (no path condition) and narrowing -----------------
  struct Rg { int64_t lo, hi; };
  std::vector<Rg> rcache; std::vector<uint8_t> rhave;
  static Rg full(unsigned w) { return w >= 64 ? Rg{INT64_MIN, INT64_MAX} : Rg{-(int64_t)(1ull << (w - 1)), (int64_t)((1ull << (w - 1)) - 1)}; }
  static Rg fit(__int128 lo, __int128 hi, unsigned w) { Rg f = full(w); if (lo < f.lo || hi > f.hi) return f; return {(int64_t)lo, (int64_t)hi}; }
  static unsigned sbits(Rg r) { unsigned n = 1; while (n < 64 && (r.lo < -(int64_t)(1ull << (n - 1)) || r.hi > (int64_t)((1ull << (n - 1)) - 1))) n++; return n; }
  Rg rng(E e) {
    if (e->k == K_CONST) { int64_t v = sxt(e->v, e->w); return {v, v}; }
    if (e->w == 1 || e->fp) return full(e->w);
    if (e->id < rhave.size() && rhave[e->id]) return rcache[e->id];
    Rg r = full(e->w);
    unsigned w = e->w;
    switch (e->k) {
      case K_ZEXT: { Rg a = rng(e->a); if (e->a->w > 1 && a.lo >= 0) r = a; else r = {0, (int64_t)maskw(e->a->w)}; break; }
      case K_SEXT: r = rng(e->a); break;
      case K_ADD: { Rg a = rng(e->a), b = rng(e->b); r = fit((__int128)a.lo + b.lo, (__int128)a.hi + b.hi, w); break; }
      case K_SUB: { Rg a = rng(e->a), b = rng(e->b); r = fit((__int128)a.lo - b.hi, (__int128)a.hi - b.lo, w); break; }
      case K_MUL: { Rg a = rng(e->a), b = rng(e->b); __int128 q[4] = {(__int128)a.lo * b.lo, (__int128)a.lo * b.hi, (__int128)a.hi * b.lo, (__int128)a.hi * b.hi};
        __int128 lo = q[0], hi = q[0]; for (auto x : q) { if (x < lo) lo = x; if (x > hi) hi = x; } r = fit(lo, hi, w); break; }
      case K_SHL: if (ic(e->b) && e->b->v < 62) { Rg a = rng(e->a); r = fit((__int128)a.lo << e->b->v, (__int128)a.hi << e->b->v, w); } break;
      case K_ITE: { Rg a = rng(e->b), b = rng(e->c); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
      case K_AND: { Rg a = rng(e->a), b = rng(e->b); if (a.lo >= 0 && b.lo >= 0) r = {0, std::min(a.hi, b.hi)}; else if (a.lo >= 0) r = {0, a.hi}; else if (b.lo >= 0) r = {0, b.hi}; break; }
      case K_OR: case K_XOR: { Rg a = rng(e->a), b = rng(e->b); if (a.lo >= 0 && b.lo >= 0) { unsigned n = std::max(sbits(a), sbits(b)); r = {0, (int64_t)maskw(n - 1)}; } break; }
      case K_LSHR: if (ic(e->b) && e->b->v < w) { Rg a = rng(e->a); if (a.lo >= 0) r = {a.lo >> e->b->v, a.hi >> e->b->v}; else if (e->b->v > 0) r = {0, (int64_t)(maskw(w) >> e->b->v)}; } break;
      case K_ASHR: if (ic(e->b) && e->b->v < w) { Rg a = rng(e->a); r = {a.lo >> e->b->v, a.hi >> e->b->v}; } break;
      case K_UDIV: { Rg a = rng(e->a), b = rng(e->b); if (a.lo >= 0 && b.lo >= 1) r = {a.lo / b.hi, a.hi / b.lo}; break; }
      case K_UREM: { Rg a = rng(e->a), b = rng(e->b); if (a.lo >= 0 && b.lo >= 1) r = {0, std::min(a.hi, b.hi - 1)}; break; }
      case K_EXTRACT: if (e->v == 0) { Rg a = rng(e->a), f = full(w); if (a.lo >= f.lo && a.hi <= f.hi) r = a; } break;
      case K_CONCAT: if (ic(e->a, 0)) r = {0, (int64_t)maskw(e->b->w)}; break;
      default: break;
    }
    if (rhave.size() <= e->id) { rhave.resize(e->id + 1024, 0); rcache.resize(e->id + 1024); }
    rhave[e->id] = 1; rcache[e->id] = r;
    return r;
  }
  std::unordered_map<uint64_t, E> lowmemo;
  E Low(E e, unsigned m) {
    if (m >= e->w) return e;
    switch (e->k) { case K_ADD: case K_SUB: case K_MUL: case K_AND: case K_OR: case K_XOR: case K_ITE: break; default: return Extract(e, 0, m); }
    uint64_t key = ((uint64_t)e->id << 8) | m;
    auto it = lowmemo.find(key);
    if (it != lowmemo.end()) return it->second;
    E r;
    if (e->k == K_ITE) r = Ite(e->a, Low(e->b, m), Low(e->c, m));
    else { E a = Low(e->a, m), b = Low(e->b, m);
      switch (e->k) { case K_ADD: r = Add(a, b); break; case K_SUB: r = Sub(a, b); break; case K_MUL: r = Mul(a, b); break; case K_AND: r = And(a, b); break; case K_OR: r = Or(a, b); break; default: r = Xor(a, b); } }
    lowmemo[key] = r;
    return r;
  }
  static bool arith(E e) { return e->k == K_ADD || e->k == K_SUB || e->k == K_MUL || e->k == K_ITE; }
  unsigned narrowTo(E a, E b, Rg ra, Rg rb) { if (a->w < 12 || (!arith(a) && !arith(b))) return a->w; return std::max(sbits(ra), sbits(rb)); }
  bool addNoOvf(E a, E b, bool sub) { Rg x = rng(a), y = rng(b), f = full(a->w); __int128 lo = sub ? (__int128)x.lo - y.hi : (__int128)x.lo + y.lo, hi = sub ? (__int128)x.hi - y.lo : (__int128)x.hi + y.hi; return lo >= f.lo && hi <= f.hi; }
  bool mulNoOvf(E a, E b) { Rg x = rng(a), y = rng(b), f = full(a->w); for (int64_t p : {x.lo, x.hi}) for (int64_t q : {y.lo, y.hi}) { __int128 v = (__int128)p * q; if (v < f.lo || v > f.hi) return false; } return true; }

  E Eq(E a, E b) {
    if (a == b) return T();
    if (ic(a) && ic(b)) return C(a->v == b->v, 1);
    if (ic(a)) std::swap(a, b);
    if (a->w == 1) { if (ic(b)) return b->v ? a : Not(a); }
    if (ic(b)) {
      if (a->k == K_ZEXT) {
        if (b->v >> a->a->w) return F();
        return Eq(a->a, C(b->v, a->a->w));
      }
      if (a->k == K_SEXT) {
        uint64_t lo = b->v & maskw(a->a->w);
        if (((uint64_t)sxt(lo, a->a->w) & maskw(a->w)) != b->v) return F();
        return Eq(a->a, C(lo, a->a->w));
      }
      if (a->k == K_CONCAT) {
        if (ic(a->b)) { if ((b->v & maskw(a->b->w)) != a->b->v) return F(); return Eq(a->a, C(b->v >> a->b->w, a->a->w)); }
        if (ic(a->a)) { if ((b->v >> a->b->w) != a->a->v) return F(); return Eq(a->b, C(b->v, a->b->w)); }
      }
      if (a->k == K_ADD && ic(a->b)) return Eq(a->a, C(b->v - a->b->v, a->w));
      if (a->k == K_XOR && ic(a->b)) return Eq(a->a, C(b->v ^ a->b->v, a->w));
      if (a->k == K_ITE && (ic(a->b) || ic(a->c))) {
        E x = Eq(a->b, b), y = Eq(a->c, b);
        if (ic(x) || ic(y)) return Ite(a->a, x, y);
      }
      if (zeros(a) & b->v) return F();
    } else {
      if (a->k == K_ZEXT && b->k == K_ZEXT) {
        if (a->a->w == b->a->w) return Eq(a->a, b->a);
        if (a->a->w < b->a->w) return Eq(ZExt(a->a, b->a->w), b->a);
        return Eq(a->a, ZExt(b->a, a->a->w));
      }
      if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return Eq(a->a, b->a);
    }
    if (a->w > 1 && !a->fp && !b->fp) {
      Rg ra = rng(a), rb = rng(b);
      if (ra.hi < rb.lo || rb.hi < ra.lo) return F();
      unsigned m = narrowTo(a, b, ra, rb);
      if (m < a->w) return Eq(Low(a, m), Low(b, m));
    }
    if (!ic(b) && a->id > b->id) std::swap(a, b);
    return mk(K_EQ, 1, 0, a, b);
  }
  E Ult(E a, E b) {
    if (a == b) return F();
    if (ic(a) && ic(b)) return C(a->v < b->v, 1);
    if (ic(b, 0)) return F();
    if (ic(b, 1)) return Eq(a, C(0, a->w));
    if (ic(a) && a->v == maskw(a->w)) return F();
    if (ic(a, 0)) return Not(Eq(b, C(0, b->w)));
    if (a->k == K_ZEXT && ic(b)) { if (b->v > maskw(a->a->w)) return T(); return Ult(a->a, C(b->v, a->a->w)); }
    if (b->k == K_ZEXT && ic(a)) { if (a->v >= maskw(b->a->w)) return F(); return Ult(C(a->v, b->a->w), b->a); }
    if (a->k == K_ZEXT && b->k == K_ZEXT) {
      unsigned m = std::max(a->a->w, b->a->w);
      if (m < a->w) return Ult(ZExt(a->a, m), ZExt(b->a, m));
    }
    if (a->k == K_ITE && ic(a->b) && ic(a->c) && ic(b)) return Ite(a->a, Ult(a->b, b), Ult(a->c, b));
    if (b->k == K_ITE && ic(b->b) && ic(b->c) && ic(a)) return Ite(b->a, Ult(a, b->b), Ult(a, b->c));
    if (a->w > 1 && !a->fp && !b->fp) {
      Rg ra = rng(a), rb = rng(b);
      if (ra.lo >= 0 && rb.lo >= 0) {
        if (ra.hi < rb.lo) return T();
        if (ra.lo >= rb.hi) return F();
        unsigned m = narrowTo(a, b, ra, rb);
        if (m < a->w) return Ult(Low(a, m), Low(b, m));
      }
    }
    return mk(K_ULT, 1, 0, a, b);
  }
  E Ule(E a, E b) {
    if (a == b) return T();
    if (ic(a) && ic(b)) return C(a->v <= b->v, 1);
    if (ic(b)) { if (b->v == maskw(b->w)) return T(); return Ult(a, C(b->v + 1, b->w)); }
    if (ic(a)) { if (a->v == 0) return T(); return Ult(C(a->v - 1, a->w), b); }
    if (a->k == K_ZEXT && b->k == K_ZEXT) {
      unsigned m = std::max(a->a->w, b->a->w);
      if (m < a->w) return Ule(ZExt(a->a, m), ZExt(b->a, m));
    }
    if (a->w > 1 && !a->fp && !b->fp) {
      Rg ra = rng(a), rb = rng(b);
      if (ra.lo >= 0 && rb.lo >= 0) {
        if (ra.hi <= rb.lo) return T();
        if (ra.lo > rb.hi) return F();
        unsigned m = narrowTo(a, b, ra, rb);
        if (m < a->w) return Ule(Low(a, m), Low(b, m));
      }
    }
    return mk(K_ULE, 1, 0, a, b);
  }
  E Slt(E a, E b) {
    if (a == b) return F();
    unsigned w = a->w;
    if (ic(a) && ic(b)) return C(sxt(a->v, w) < sxt(b->v, w), 1);
    if (a->k == K_ZEXT && b->k == K_ZEXT) return Ult(a, b);
    if (a->k == K_ZEXT && ic(b)) return sxt(b->v, w) < 0 ? F() : Ult(a, b);
    if (b->k == K_ZEXT && ic(a)) return sxt(a->v, w) < 0 ? T() : Ult(a, b);
    if (a->k == K_ITE && ic(a->b) && ic(a->c) && ic(b)) return Ite(a->a, Slt(a->b, b), Slt(a->c, b));
    if (a->w > 1 && !a->fp && !b->fp) {
      Rg ra = rng(a), rb = rng(b);
      if (true) {
        if (ra.hi < rb.lo) return T();
        if (ra.lo >= rb.hi) return F();
        unsigned m = narrowTo(a, b, ra, rb);
        if (m < a->w) return Slt(Low(a, m), Low(b, m));
      }
    }
    return mk(K_SLT, 1, 0, a, b);
  }
  E Sle(E a, E b) {
    if (a == b) return T();
    unsigned w = a->w;
    if (ic(a) && ic(b)) return C(sxt(a->v, w) <= sxt(b->v, w), 1);
    if (a->k == K_ZEXT && b->k == K_ZEXT) return Ule(a, b);
    if (a->k == K_ZEXT && ic(b)) return sxt(b->v, w) < 0 ? F() : Ule(a, b);
    if (b->k == K_ZEXT && ic(a)) return sxt(a->v, w) < 0 ? T() : Ule(a, b);
    if (a->w > 1 && !a->fp && !b->fp) {
      Rg ra = rng(a), rb = rng(b);
      if (true) {
        if (ra.hi <= rb.lo) return T();
        if (ra.lo > rb.hi) return F();
        unsigned m = narrowTo(a, b, ra, rb);
        if (m < a->w) return Sle(Low(a, m), Low(b, m));
      }
    }
    return mk(K_SLE, 1, 0, a, b);
  }
  E Ite(E c, E a, E b) {
    if (ic(c)) return c->v ? a : b;
    if (a == b) return a;
    if (isNot(c)) return Ite(c->a, b, a);
    if (a->w == 1) {
      if (ic(a, 1) && ic(b, 0)) return c;
      if (ic(a, 0) && ic(b, 1)) return Not(c);
      if (ic(a, 1)) return Or(c, b);
      if (ic(a, 0)) return And(Not(c), b);
      if (ic(b, 0)) return And(c, a);
      if (ic(b, 1)) return Or(Not(c), a);
    }
    if (ic(a) && ic(b)) {
      if (a->v == 1 && b->v == 0) return ZExt(c, a->w);
      if (a->v == 0 && b->v == 1) return ZExt(Not(c), a->w);
    }
    if (a->k == K_ITE && a->a == c) return Ite(c, a->b, b);
    if (b->k == K_ITE && b->a == c) return Ite(c, a, b->c);
    return mk(K_ITE, a->w, 0, c, a, b);
  }
  E UMulO(E a, E b) {
    if (ic(a) && ic(b)) { unsigned __int128 r = (unsigned __int128)a->v * b->v; return C((r >> a->w) != 0, 1); }
    if (ic(a)) std::swap(a, b);
    if (ic(b, 0) || ic(b, 1)) return F();
    if (ic(b)) return Ult(C(maskw(a->w) / b->v, a->w), a);
    return mk(K_UMULO, 1, 0, a, b);
  }
  E SMulO(E a, E b) {
    unsigned w = a->w;
    if (ic(a) && ic(b)) { __int128 r = (__int128)sxt(a->v, w) * sxt(b->v, w); __int128 lo = -((__int128)1 << (w - 1)), hi = ((__int128)1 << (w - 1)) - 1; return C(r < lo || r > hi, 1); }
    if (ic(a)) std::swap(a, b);
    if (ic(b, 0) || ic(b, 1)) return F();
    return mk(K_SMULO, 1, 0, a, b);
  }
  // ---- FP ----
  static double fval(E e) { if (e->w == 32) { uint32_t u = (uint32_t)e->v; float f; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &e->v, 8); return d; }
  E FC(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return C(u, 32); } uint64_t u; memcpy(&u, &d, 8); return C(u, 64); }
  static double fun(int op, double x, unsigned w) {
    if (w == 32) { float f = (float)x; switch (op) { case F_NEG: return -f; case F_LOG2: return log2f(f); case F_CEIL: return ceilf(f); case F_FLOOR: return floorf(f); case F_TRUNC: return truncf(f); case F_ROUND: return roundf(f); case F_SQRT: return sqrtf(f); case F_FABS: return fabsf(f); case F_LOG: return logf(f); case F_EXP2: return exp2f(f); case F_LOG10: return log10f(f);} }
    switch (op) { case F_NEG: return -x; case F_LOG2: return log2(x); case F_CEIL: return ceil(x); case F_FLOOR: return floor(x); case F_TRUNC: return trunc(x); case F_ROUND: return round(x); case F_SQRT: return sqrt(x); case F_FABS: return fabs(x); case F_LOG: return log(x); case F_EXP2: return exp2(x); case F_LOG10: return log10(x);}
    return 0;
  }
  static double fbin(int op, double x, double y, unsigned w) {
    double r = 0;
    if (w == 32) { float a = (float)x, b = (float)y, q = 0; switch (op) { case F_ADD: q = a + b; break; case F_SUB: q = a - b; break; case F_MUL: q = a * b; break; case F_DIV: q = a / b; break; case F_MIN: q = fminf(a, b); break; case F_MAX: q = fmaxf(a, b); break; } return q; }
    switch (op) { case F_ADD: r = x + y; break; case F_SUB: r = x - y; break; case F_MUL: r = x * y; break; case F_DIV: r = x / y; break; case F_MIN: r = fmin(x, y); break; case F_MAX: r = fmax(x, y); break; }
    return r;
  }
  E I2F(E a, unsigned w, bool s) {
    if (ic(a)) { if (w == 32) return FC(s ? (float)sxt(a->v, a->w) : (float)a->v, 32); return FC(s ? (double)sxt(a->v, a->w) : (double)a->v, 64); }
    if (s && a->k == K_ZEXT) s = false;
    return mk(s ? K_F_SI2F : K_F_UI2F, w, 0, a);
  }
  E FUn(int op, E a) { if (ic(a)) return FC(fun(op, fval(a), a->w), a->w); return mk(K_F_UN, a->w, op, a); }
  E FBin(int op, E a, E b) {
    if (ic(a) && ic(b)) return FC(fbin(op, fval(a), fval(b), a->w), a->w);
    if (op == F_MUL && ic(a) && fval(a) == 1.0) return b;
    if ((op == F_MUL || op == F_DIV) && ic(b) && fval(b) == 1.0) return a;
    return mk(K_F_BIN, a->w, op, a, b); }
  E FCvt(E a, unsigned w) { if (w == a->w) return a; if (ic(a)) return FC(fval(a), w); 
    return mk(K_F_CVT, w, 0, a); }
  E FCmp(unsigned pred, E a, E b) { return mk(K_F_CMP, 1, pred, a, b); }

  // ---- evaluation under an assignment ----
  template <class GET> uint64_t eval(E e, GET& get, std::unordered_map<E, uint64_t>& memo) {
    if (e->k == K_CONST) return e->v;
    if (e->k == K_SYM) return get((uint32_t)e->v) & maskw(e->w);
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    uint64_t m = maskw(e->w), r = 0;
    if (e->k == K_ITE) {
      r = eval(e->a, get, memo) ? eval(e->b, get, memo) : eval(e->c, get, memo);
      memo[e] = r; return r;
    }
    uint64_t x = e->a ? eval(e->a, get, memo) : 0, y = e->b ? eval(e->b, get, memo) : 0;
    unsigned w = e->a ? e->a->w : 0;
    auto asf = [&](uint64_t v, unsigned ww) { if (ww == 32) { uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); return (double)f; } double d; memcpy(&d, &v, 8); return d; };
    auto tob = [&](double d, unsigned ww) -> uint64_t { if (ww == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; };
    switch (e->k) {
      case K_CONCAT: r = (x << e->b->w) | y; break;
      case K_EXTRACT: r = x >> e->v; break;
      case K_ZEXT: r = x; break;
      case K_SEXT: r = (uint64_t)sxt(x, w); break;
      case K_ADD: r = x + y; break;
      case K_SUB: r = x - y; break;
      case K_MUL: r = x * y; break;
      case K_UDIV: r = y ? x / y : m; break;
      case K_UREM: r = y ? x % y : x; break;
      case K_SDIV: { int64_t p = sxt(x, w), q = sxt(y, w); r = q == 0 ? (p < 0 ? 1 : m) : q == -1 ? 0 - x : (uint64_t)(p / q); break; }
      case K_SREM: { int64_t p = sxt(x, w), q = sxt(y, w); r = q == 0 ? x : q == -1 ? 0 : (uint64_t)(p % q); break; }
      case K_AND: r = x & y; break;
      case K_OR: r = x | y; break;
      case K_XOR: r = x ^ y; break;
      case K_SHL: r = y >= w ? 0 : x << y; break;
      case K_LSHR: r = y >= w ? 0 : x >> y; break;
      case K_ASHR: r = (uint64_t)(sxt(x, w) >> (y >= w ? w - 1 : y)); break;
      case K_EQ: r = x == y; break;
      case K_ULT: r = x < y; break;
      case K_ULE: r = x <= y; break;
      case K_SLT: r = sxt(x, w) < sxt(y, w); break;
      case K_SLE: r = sxt(x, w) <= sxt(y, w); break;
      case K_UMULO: r = (((unsigned __int128)x * y) >> w) != 0; break;
      case K_SMULO: { __int128 q = (__int128)sxt(x, w) * sxt(y, w); r = q < -((__int128)1 << (w - 1)) || q > ((__int128)1 << (w - 1)) - 1; break; }
      case K_F_UI2F: r = e->w == 32 ? tob((float)x, 32) : tob((double)x, 64); break;
      case K_F_SI2F: r = e->w == 32 ? tob((float)sxt(x, w), 32) : tob((double)sxt(x, w), 64); break;
      case K_F_UN: r = tob(fun((int)e->v, asf(x, w), w), e->w); break;
      case K_F_BIN: r = tob(fbin((int)e->v, asf(x, w), asf(y, w), w), e->w); break;
      case K_F_CVT: r = tob(asf(x, w), e->w); break;
      default: assert(0 && "eval");
    }
    r &= m;
    memo[e] = r;
    return r;
  }
};

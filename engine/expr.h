// Hash-consed symbolic expressions over bit-vectors of width 1..64.
// Floating-point values are 32/64-bit vectors; operations on them are separate node kinds.
// A "Lane" node is a float/double whose value is exactly  a * 2^-aux  with a an integer
// expression whose range guarantees that the value is representable (no rounding).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <climits>
#include <string>
#include <vector>

enum Kind : uint8_t {
  KConst, KSym, KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr,
  KEq, KUlt, KUle, KSlt, KSle, KConcat, KExtract, KZExt, KSExt, KIte,
  KLane, KFAdd, KFSub, KFMul, KFDiv, KFNeg, KFAbs, KFSqrt, KFCmp, KSIToFP, KUIToFP, KFPToSI, KFPToUI,
  KFPExt, KFPTrunc, KFRound
};
// FCmp predicates (aux)
enum FP { FP_OEQ, FP_OLT, FP_OLE, FP_UNO };
// rounding kinds for KFRound (aux)
enum FR { FR_FLOOR, FR_CEIL, FR_TRUNC, FR_NEAR };

struct Expr {
  Kind k; uint8_t w; int16_t aux; uint32_t id;
  Expr *a, *b, *c; uint64_t val;      // val: constant or symbol number, extract offset
  int64_t lo, hi;                     // signed interval of the value (integers; for lanes: of a)
  uint64_t evalVal; uint32_t evalEpoch; uint32_t hash;
  void *z, *zb; bool hasFP; bool neglit; Expr* next;
  uint64_t sm; Expr *sub, *rw; uint32_t rwEpoch; // symbols below (mod 64); value known on this path; memo of the rewriting
};
typedef Expr* E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; v &= maskw(w); return (v >> (w - 1)) & 1 ? (int64_t)(v | ~maskw(w)) : (int64_t)v; }
static inline int64_t smin_w(unsigned w) { return w >= 64 ? INT64_MIN : -(1ll << (w - 1)); }
static inline int64_t smax_w(unsigned w) { return w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1; }

struct SymInfo { std::string name; unsigned w; int64_t lo, hi; bool ranged; };

struct ExprCtx {
  std::vector<E> table; size_t n = 0; uint32_t nextId = 1; uint32_t epoch = 1;
  char *pool = nullptr, *poolEnd = nullptr;
  std::vector<SymInfo> syms; std::vector<uint64_t> model; // current model of the path
  ExprCtx() { table.assign(1 << 16, nullptr); }
  E alloc() { if (pool + sizeof(Expr) > poolEnd) { size_t sz = 1 << 18; pool = (char*)malloc(sz); poolEnd = pool + sz; } E e = (E)pool; pool += (sizeof(Expr) + 15) & ~15ull; return e; }
  static uint32_t h(Kind k, unsigned w, int aux, E a, E b, E c, uint64_t v) {
    uint64_t x = k * 0x9E3779B97F4A7C15ull ^ (w * 0x85EBCA6Bull) ^ ((uint64_t)(uint16_t)aux << 40);
    x = (x ^ (a ? a->id : 0)) * 0xff51afd7ed558ccdull; x ^= x >> 29;
    x = (x ^ (b ? b->id : 0)) * 0xc4ceb9fe1a85ec53ull; x ^= x >> 31;
    x = (x ^ (c ? c->id : 0)) * 0x9E3779B97F4A7C15ull; x ^= x >> 30;
    x = (x ^ v) * 0xff51afd7ed558ccdull; x ^= x >> 32; return (uint32_t)x;
  }
  void grow() { std::vector<E> t(table.size() * 2, nullptr); for (E e : table) while (e) { E nx = e->next; size_t i = e->hash & (t.size() - 1); e->next = t[i]; t[i] = e; e = nx; } table.swap(t); }
  E raw(Kind k, unsigned w, int aux, E a, E b, E c, uint64_t v) {
    uint32_t hh = h(k, w, aux, a, b, c, v); size_t i = hh & (table.size() - 1);
    for (E e = table[i]; e; e = e->next) if (e->hash == hh && e->k == k && e->w == w && e->aux == aux && e->a == a && e->b == b && e->c == c && e->val == v) return e;
    E e = alloc(); e->k = k; e->w = w; e->aux = aux; e->id = nextId++; e->a = a; e->b = b; e->c = c; e->val = v; e->evalEpoch = 0; e->hash = hh; e->z = e->zb = nullptr; e->sub = e->rw = nullptr; e->rwEpoch = 0; e->sm = k == KSym ? 1ull << (v & 63) : (a ? a->sm : 0) | (b ? b->sm : 0) | (c ? c->sm : 0);
    e->hasFP = (k >= KFAdd) || (a && a->hasFP) || (b && b->hasFP) || (c && c->hasFP);
    if (k != KIte && k != KLane && ((a && a->k == KLane) || (b && b->k == KLane) || (a && a->k == KIte && a->w >= 32 && (a->b->k == KLane || a->c->k == KLane)))) e->hasFP = true;
    e->next = table[i]; table[i] = e; interval(e);
    if (++n > table.size()) grow();
    return e;
  }
  static bool addov(int64_t a, int64_t b, int64_t& r) { return __builtin_add_overflow(a, b, &r); }
  void interval(E e) {
    int64_t L = smin_w(e->w), H = smax_w(e->w), l, h2;
    auto fit = [&](int64_t l, int64_t h) { if (l >= smin_w(e->w) && h <= smax_w(e->w)) { L = l; H = h; } };
    switch (e->k) {
    case KConst: L = H = sx(e->val, e->w); break;
    case KSym: if (syms[e->val].ranged) { L = syms[e->val].lo; H = syms[e->val].hi; } break;
    case KAdd: if (!addov(e->a->lo, e->b->lo, l) && !addov(e->a->hi, e->b->hi, h2)) fit(l, h2); break;
    case KSub: if (!__builtin_sub_overflow(e->a->lo, e->b->hi, &l) && !__builtin_sub_overflow(e->a->hi, e->b->lo, &h2)) fit(l, h2); break;
    case KMul: { int64_t p[4]; bool ov = __builtin_mul_overflow(e->a->lo, e->b->lo, &p[0]) | __builtin_mul_overflow(e->a->lo, e->b->hi, &p[1]) | __builtin_mul_overflow(e->a->hi, e->b->lo, &p[2]) | __builtin_mul_overflow(e->a->hi, e->b->hi, &p[3]);
      if (!ov) { l = h2 = p[0]; for (int i = 1; i < 4; i++) { if (p[i] < l) l = p[i]; if (p[i] > h2) h2 = p[i]; } fit(l, h2); } break; }
    case KZExt: if (e->a->lo >= 0) { L = e->a->lo; H = e->a->hi; } else { L = 0; H = (int64_t)maskw(e->a->w); } break;
    case KSExt: L = e->a->lo; H = e->a->hi; break;
    case KExtract: if (e->val == 0 && e->a->lo >= smin_w(e->w) && e->a->hi <= smax_w(e->w)) { L = e->a->lo; H = e->a->hi; } break;
    case KIte: L = e->b->lo < e->c->lo ? e->b->lo : e->c->lo; H = e->b->hi > e->c->hi ? e->b->hi : e->c->hi; break;
    case KAnd: if (e->w > 1) { if (e->a->lo >= 0) { L = 0; H = e->a->hi; } if (e->b->lo >= 0) { L = 0; if (e->b->hi < H) H = e->b->hi; } } break;
    case KOr: case KXor: if (e->w > 1 && e->a->lo >= 0 && e->b->lo >= 0) { uint64_t m = (uint64_t)e->a->hi | (uint64_t)e->b->hi; while (m & (m + 1)) m |= m >> 1; L = 0; H = (int64_t)m; } break;
    case KURem: if (e->b->k == KConst && sx(e->b->val, e->w) > 0) { L = 0; H = sx(e->b->val, e->w) - 1; if (e->a->lo >= 0 && e->a->hi < H) H = e->a->hi; } break;
    case KUDiv: if (e->a->lo >= 0) { L = 0; H = e->a->hi; if (e->b->k == KConst && sx(e->b->val, e->w) > 0) { L = e->a->lo / sx(e->b->val, e->w); H = e->a->hi / sx(e->b->val, e->w); } else H = smax_w(e->w); } break;
    case KSDiv: if (e->b->k == KConst && sx(e->b->val, e->w) > 0) { int64_t d = sx(e->b->val, e->w); L = e->a->lo / d; H = e->a->hi / d; } break;
    case KSRem: if (e->b->k == KConst && sx(e->b->val, e->w) > 0) { int64_t d = sx(e->b->val, e->w) - 1; L = e->a->lo >= 0 ? 0 : -d; H = e->a->hi <= 0 ? 0 : d; } break;
    case KLShr: if (e->b->k == KConst && e->b->val > 0 && e->b->val < e->w) { L = 0; H = (int64_t)(maskw(e->w) >> e->b->val); if (e->a->lo >= 0) H = e->a->hi >> e->b->val; } else if (e->a->lo >= 0) { L = 0; H = e->a->hi; } break;
    case KAShr: if (e->b->k == KConst && e->b->val < e->w) { L = e->a->lo >> e->b->val; H = e->a->hi >> e->b->val; } break;
    case KShl: if (e->b->k == KConst && e->b->val < 62) { if (!__builtin_mul_overflow(e->a->lo, 1ll << e->b->val, &l) && !__builtin_mul_overflow(e->a->hi, 1ll << e->b->val, &h2)) fit(l, h2); } break;
    default: break;
    }
    e->lo = L; e->hi = H;
  }
  E cst(uint64_t v, unsigned w) { return raw(KConst, w, 0, nullptr, nullptr, nullptr, v & maskw(w)); }
  E tru() { return cst(1, 1); }
  E sym(const std::string& name, unsigned w, bool ranged = false, int64_t lo = 0, int64_t hi = 0, uint64_t initial = 0) {
    SymInfo si{name, w, lo, hi, ranged}; syms.push_back(si); model.push_back(initial & maskw(w)); epoch++; return raw(KSym, w, 0, nullptr, nullptr, nullptr, syms.size() - 1);
  }
  static bool isC(E e) { return e->k == KConst; }
  static bool isC(E e, uint64_t v) { return e->k == KConst && e->val == (v & maskw(e->w)); }

  // ---- concrete semantics
  static uint64_t cbin(Kind k, uint64_t a, uint64_t b, unsigned w) {
    uint64_t m = maskw(w); a &= m; b &= m;
    switch (k) {
    case KAdd: return (a + b) & m; case KSub: return (a - b) & m; case KMul: return (a * b) & m;
    case KUDiv: return b ? a / b : m; case KURem: return b ? a % b : a;
    case KSDiv: { int64_t x = sx(a, w), y = sx(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
    case KSRem: { int64_t x = sx(a, w), y = sx(b, w); if (y == 0) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case KAnd: return a & b; case KOr: return a | b; case KXor: return a ^ b;
    case KShl: return b >= w ? 0 : (a << b) & m; case KLShr: return b >= w ? 0 : a >> b;
    case KAShr: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case KEq: return a == b; case KUlt: return a < b; case KUle: return a <= b; case KSlt: return sx(a, w) < sx(b, w); case KSle: return sx(a, w) <= sx(b, w);
    default: abort();
    }
  }
  static double todbl(uint64_t v, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
  static uint64_t fromdbl(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t v; memcpy(&v, &d, 8); return v; }
  static uint64_t cfbin(Kind k, uint64_t a, uint64_t b, unsigned w) {
    if (w == 32) { float x = (float)todbl(a, 32), y = (float)todbl(b, 32), r = 0; switch (k) { case KFAdd: r = x + y; break; case KFSub: r = x - y; break; case KFMul: r = x * y; break; case KFDiv: r = x / y; break; default: abort(); } uint32_t o; memcpy(&o, &r, 4); return o; }
    double x = todbl(a, 64), y = todbl(b, 64), r = 0; switch (k) { case KFAdd: r = x + y; break; case KFSub: r = x - y; break; case KFMul: r = x * y; break; case KFDiv: r = x / y; break; default: abort(); } return fromdbl(r, 64);
  }
  static bool cfcmp(int p, double x, double y) { switch (p) { case FP_OEQ: return x == y; case FP_OLT: return x < y; case FP_OLE: return x <= y; case FP_UNO: return x != x || y != y; } abort(); }

  // ---- integer linear forms: L is congruent to the value of the expression modulo 2^width
  struct Lin { std::vector<std::pair<E, __int128>> t; __int128 c = 0; bool ok = true;
    void add(E b, __int128 k) { for (size_t i = 0; i < t.size(); i++) if (t[i].first == b) { t[i].second += k; if (t[i].second == 0) t.erase(t.begin() + i); return; } if (t.size() >= 16) { ok = false; return; } t.push_back({b, k}); }
    void range(__int128& l, __int128& h) const { l = h = c; for (auto& x : t) { __int128 p = x.second * x.first->lo, q = x.second * x.first->hi; l += p < q ? p : q; h += p < q ? q : p; } } };
  static void norm(Lin& f, unsigned w) { __int128 l, h; f.range(l, h); __int128 m = l >> w; f.c -= m * ((__int128)1 << w); } // lowest value into [0, 2^w)
  static bool big(__int128 v) { return v > ((__int128)1 << 62) || v < -((__int128)1 << 62); }
  void lin(E e, __int128 k, Lin& o, int depth = 0) {
    if (!o.ok) return; if (big(k) || big(o.c)) { o.ok = false; return; }
    if (e->k == KConst) { o.c += k * sx(e->val, e->w); return; }
    if (depth < 24) {
      switch (e->k) {
      case KAdd: lin(e->a, k, o, depth + 1); lin(e->b, k, o, depth + 1); return;
      case KSub: lin(e->a, k, o, depth + 1); lin(e->b, -k, o, depth + 1); return;
      case KMul: if (isC(e->b)) { __int128 m = k * sx(e->b->val, e->w); if (!big(m)) { lin(e->a, m, o, depth + 1); return; } } break;
      case KShl: if (isC(e->b) && e->b->val < 40) { __int128 m = k * ((__int128)1 << e->b->val); if (!big(m)) { lin(e->a, m, o, depth + 1); return; } } break;
      case KExtract: if (e->val == 0) { lin(e->a, k, o, depth + 1); return; } break;
      case KZExt: case KSExt: { Lin i; lin(e->a, 1, i, depth + 1); if (!i.ok) break; __int128 l, h; unsigned iw = e->a->w; if (e->k == KZExt) norm(i, iw); i.range(l, h); bool in = e->k == KZExt ? l >= 0 && h < ((__int128)1 << iw) : l >= -((__int128)1 << (iw - 1)) && h < ((__int128)1 << (iw - 1));
        if (in) { for (auto& x : i.t) o.add(x.first, x.second * k); o.c += i.c * k; return; } break; }
      default: break;
      }
    }
    o.add(e, k);
  }
  E unlin(const Lin& f, unsigned w) { E r = nullptr; for (auto& x : f.t) { E b = x.first; b = b->w > w ? extract(b, 0, w) : sext(b, w); E m = x.second == 1 ? b : bin(KMul, b, cst((uint64_t)x.second, w)); r = r ? bin(KAdd, r, m) : m; } E c = cst((uint64_t)f.c, w); return r ? bin(KAdd, r, c) : c; }
  // (sum of multiples of d) + rest with 0 <= rest < d and no wrap-around: quotient and remainder by the constant d
  bool linDiv(E a, uint64_t d, Lin& q, Lin& r) {
    Lin f; lin(a, 1, f); if (!f.ok) return false; __int128 l, h; norm(f, a->w); f.range(l, h); if (l < 0 || h >= ((__int128)1 << a->w)) return false;
    for (auto& x : f.t) if (x.second % (__int128)d == 0) q.t.push_back({x.first, x.second / (__int128)d}); else r.t.push_back(x);
    q.c = f.c / (__int128)d; r.c = f.c % (__int128)d; if (r.c < 0) { r.c += d; q.c -= 1; } r.range(l, h); return l >= 0 && h < (__int128)d;
  }
  // ---- smart constructors
  E bin(Kind k, E a, E b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) { bool cmp = k >= KEq && k <= KSle; return cst(cbin(k, a->val, b->val, w), cmp ? 1 : w); }
    switch (k) {
    case KAdd: if (isC(a)) std::swap(a, b); if (isC(b, 0)) return a;
      if (isC(b) && a->k == KAdd && isC(a->b)) return bin(KAdd, a->a, cst(a->b->val + b->val, w));
      if (isC(b) && a->k == KIte && isC(a->b) && isC(a->c)) return ite(a->a, bin(KAdd, a->b, b), bin(KAdd, a->c, b));
      if (a->k == KSub && a->b == b) return a->a;
      if (w == 1) return bin(KXor, a, b);
      break;
    case KSub: if (a == b) return cst(0, w); if (isC(b)) return bin(KAdd, a, cst(0 - b->val, w));
      if (a->k == KAdd) { if (a->b == b) return a->a; if (a->a == b) return a->b; if (b->k == KAdd && b->a == a->a) return bin(KSub, a->b, b->b); if (b->k == KAdd && isC(a->b) && isC(b->b)) return bin(KAdd, bin(KSub, a->a, b->a), cst(a->b->val - b->b->val, w)); }
      if (b->k == KAdd && b->a == a) return bin(KSub, cst(0, w), b->b);
      break;
    case KMul: if (isC(a)) std::swap(a, b); if (isC(b, 0)) return b; if (isC(b, 1)) return a;
      if (isC(b) && (b->val & (b->val - 1)) == 0) return bin(KShl, a, cst(__builtin_ctzll(b->val), w));
      if (isC(b) && a->k == KIte && isC(a->b) && isC(a->c)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
      break;
    case KUDiv: if (isC(b, 1)) return a; if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return bin(KLShr, a, cst(__builtin_ctzll(b->val), w)); if (isC(b) && b->val) { Lin q, r; if (linDiv(a, b->val, q, r)) return unlin(q, w); } break;
    case KURem: if (isC(b, 1)) return cst(0, w); if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return bin(KAnd, a, cst(b->val - 1, w));
      if (isC(b) && a->lo >= 0 && sx(b->val, w) > 0 && a->hi < sx(b->val, w)) return a; if (isC(b) && b->val) { Lin q, r; if (linDiv(a, b->val, q, r) && (r.t.size() || r.c || q.t.size())) { E n = unlin(r, w); return n; } } break;
    case KSDiv: if (isC(b, 1)) return a; if (a->lo >= 0 && b->lo > 0) return bin(KUDiv, a, b);
      if (a->k == KSub && isC(b) && sx(b->val, w) > 0) {} break;
    case KSRem: if (a->lo >= 0 && b->lo > 0) return bin(KURem, a, b); break;
    case KAnd: if (isC(a)) std::swap(a, b); if (a == b) return a; if (isC(b, 0)) return b; if (isC(b, ~0ull)) return a;
      if (isC(b) && a->k == KAnd && isC(a->b)) return bin(KAnd, a->a, cst(a->b->val & b->val, w));
      if (isC(b) && a->k == KZExt) { unsigned aw = a->a->w; if ((b->val & maskw(aw)) == maskw(aw)) return a; if ((b->val & maskw(aw)) == 0) return cst(0, w); return zext(bin(KAnd, a->a, cst(b->val, aw)), w); }
      if (isC(b) && (b->val & (b->val + 1)) == 0 && a->lo >= 0 && (uint64_t)a->hi <= b->val) return a;
      if (w == 1 && (a->k == KXor && isC(a->b) && a->a == b)) return cst(0, 1);
      if (w == 1 && (b->k == KXor && isC(b->b) && b->a == a)) return cst(0, 1);
      if (isC(b) && w > 1 && (b->val & (b->val + 1)) == 0) { unsigned n = __builtin_popcountll(b->val); return zext(extract(a, 0, n), w); }
      break;
    case KOr: if (isC(a)) std::swap(a, b); if (a == b) return a; if (isC(b, 0)) return a; if (isC(b, ~0ull)) return b;
      if (w == 1 && (a->k == KXor && isC(a->b) && a->a == b)) return cst(1, 1);
      if (w == 1 && (b->k == KXor && isC(b->b) && b->a == a)) return cst(1, 1); break;
    case KXor: if (isC(a)) std::swap(a, b); if (a == b) return cst(0, w); if (isC(b, 0)) return a;
      if (isC(b) && a->k == KXor && isC(a->b)) return bin(KXor, a->a, cst(a->b->val ^ b->val, w));
      if (w == 1 && isC(b, 1)) { // negation: push into comparisons
        switch (a->k) { case KUlt: return bin(KUle, a->b, a->a); case KUle: return bin(KUlt, a->b, a->a); case KSlt: return bin(KSle, a->b, a->a); case KSle: return bin(KSlt, a->b, a->a); default: break; }
      } break;
    case KShl: case KLShr: case KAShr: if (isC(b, 0)) return a; if (isC(b) && b->val >= w) { if (k != KAShr) return cst(0, w); b = cst(w - 1, w); }
      if (isC(a, 0)) return a;
      if (k == KLShr && isC(b) && a->k == KZExt && b->val >= a->a->w) return cst(0, w);
      if (k == KLShr && isC(b)) return zext(extract(a, b->val, w - b->val), w);
      if (k == KShl && isC(b) && a->k == KShl && isC(a->b)) return bin(KShl, a->a, cst(a->b->val + b->val, w));
      break;
    case KEq: if (a == b) return cst(1, 1); if (isC(a)) std::swap(a, b);
      if (a->k == KLane && isC(b)) { Ln o; if (!toLane(b, o) || b->val == (1ull << (w - 1))) return cst(0, 1); int d = a->aux - o.k; int64_t c = sx(o.e->val, o.e->w); if (o.e->k != KConst) break;
        if (d < 0) { if (d < -60 || (c & ((1ll << -d) - 1))) return cst(0, 1); c >>= -d; } else { if (d > 60 || __builtin_mul_overflow(c, 1ll << d, &c)) return cst(0, 1); }
        if (c < smin_w(a->a->w) || c > smax_w(a->a->w)) return cst(0, 1); return bin(KEq, a->a, cst((uint64_t)c, a->a->w)); }
      if (a->hi < b->lo || b->hi < a->lo) return cst(0, 1);
      if (w == 1) { if (isC(b, 1)) return a; if (isC(b, 0)) return not_(a); }
      if (isC(b)) {
        if (a->k == KZExt) { if (b->val >> a->a->w) return cst(0, 1); return bin(KEq, a->a, cst(b->val, a->a->w)); }
        if (a->k == KSExt) { if ((uint64_t)sx(b->val & maskw(a->a->w), a->a->w) != (uint64_t)sx(b->val, w)) return cst(0, 1); return bin(KEq, a->a, cst(b->val, a->a->w)); }
        if (a->k == KAdd && isC(a->b)) return bin(KEq, a->a, cst(b->val - a->b->val, w));
        if (a->k == KXor && isC(a->b)) return bin(KEq, a->a, cst(b->val ^ a->b->val, w));
        if (a->k == KSub && b->val == 0) return bin(KEq, a->a, a->b);
        if (a->k == KIte && isC(a->b)) { if (a->b->val == b->val) return bin(KOr, a->a, bin(KEq, a->c, b)); return bin(KAnd, not_(a->a), bin(KEq, a->c, b)); }
        if (a->k == KIte && isC(a->c)) { if (a->c->val == b->val) return bin(KOr, not_(a->a), bin(KEq, a->b, b)); return bin(KAnd, a->a, bin(KEq, a->b, b)); }
        if (a->k == KOr && b->val == 0 && w > 1) return bin(KAnd, bin(KEq, a->a, b), bin(KEq, a->b, b));
        if (a->k == KConcat) return bin(KAnd, bin(KEq, a->a, cst(b->val >> a->b->w, a->a->w)), bin(KEq, a->b, cst(b->val, a->b->w)));
        if (a->k == KShl && isC(a->b)) { uint64_t s = a->b->val; if (b->val & maskw(s)) return cst(0, 1); return bin(KEq, extract(a->a, 0, w - s), cst(b->val >> s, w - s)); }
      } else {
        if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return bin(KEq, a->a, b->a);
        if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return bin(KEq, a->a, b->a);
        if (a->k == KAdd && b->k == KAdd && isC(a->b) && a->b == b->b) return bin(KEq, a->a, b->a);
        if ((a->k == KAdd || b->k == KAdd) && w > 8) { Lin f; lin(a, 1, f); lin(b, -1, f); __int128 l, h; if (f.ok) { if (f.t.empty()) return cst((uint64_t)((f.c & (__int128)maskw(w)) == 0), 1); norm(f, w); f.range(l, h); if ((l > 0 && h < ((__int128)1 << w)) || (h < 0 && l > -((__int128)1 << w))) return cst(0, 1); } }
        if (a->id > b->id) std::swap(a, b);
      } break;
    case KUlt: if (a == b) return cst(0, 1); if (isC(b, 0)) return cst(0, 1); if (isC(a, ~0ull)) return cst(0, 1); if (isC(b, 1)) return bin(KEq, a, cst(0, w));
      if (isC(a, 0)) return not_(bin(KEq, b, a));
      if (a->lo >= 0 && b->lo >= 0) { if (a->hi < b->lo) return cst(1, 1); if (a->lo >= b->hi) return cst(0, 1); if (isC(b) || isC(a)) goto narrow; }
      goto ext;
    case KUle: if (a == b) return cst(1, 1); if (isC(a, 0)) return cst(1, 1); if (isC(b, ~0ull)) return cst(1, 1); if (isC(b, 0)) return bin(KEq, a, b);
      if (a->lo >= 0 && b->lo >= 0) { if (a->hi <= b->lo) return cst(1, 1); if (a->lo > b->hi) return cst(0, 1); }
      goto ext;
    case KSlt: if (a == b) return cst(0, 1); if (a->hi < b->lo) return cst(1, 1); if (a->lo >= b->hi) return cst(0, 1); goto ext;
    case KSle: if (a == b) return cst(1, 1); if (a->hi <= b->lo) return cst(1, 1); if (a->lo > b->hi) return cst(0, 1); goto ext;
    narrow:
    ext: {
      // compare extended values in the narrow width
      Kind ek = KConst; unsigned nw = 0;
      if (a->k == KZExt || a->k == KSExt) { ek = a->k; nw = a->a->w; } else if (b->k == KZExt || b->k == KSExt) { ek = b->k; nw = b->a->w; }
      if (nw) {
        auto nar = [&](E x, bool& ok) -> E { if (x->k == ek && x->a->w == nw) return x->a; if (isC(x)) { if (ek == KZExt && (x->val >> nw) == 0) return cst(x->val, nw); if (ek == KSExt && x->val == ((uint64_t)sx(x->val & maskw(nw), nw) & maskw(w))) return cst(x->val, nw); } ok = false; return x; };
        bool ok = true; E na = nar(a, ok), nb = nar(b, ok);
        if (ok) { Kind nk = k; if (ek == KZExt) { if (k == KSlt) nk = KUlt; if (k == KSle) nk = KUle; } return bin(nk, na, nb); }
      }
      break; }
    default: break;
    }
    // a comparison of two ites with constant arms against a constant folds into the condition
    bool cmp = k >= KEq && k <= KSle;
    if (cmp && isC(b) && a->k == KIte && (isC(a->b) || isC(a->c)) && k != KEq) { return ite(a->a, bin(k, a->b, b), bin(k, a->c, b)); }
    if (cmp && isC(a) && b->k == KIte && (isC(b->b) || isC(b->c)) && k != KEq) { return ite(b->a, bin(k, a, b->b), bin(k, a, b->c)); }
    E r = raw(k, cmp ? 1 : w, 0, a, b, nullptr, 0);
    if (!cmp && r->lo == r->hi) return cst((uint64_t)r->lo, w);
    return r;
  }
  E not_(E a) { if (isC(a)) return cst(~a->val, a->w); if (a->w == 1) {
      if (a->k == KXor && isC(a->b, 1)) return a->a;
      return bin(KXor, a, cst(1, 1)); }
    return bin(KXor, a, cst(~0ull, a->w)); }
  E zext(E a, unsigned w) { if (a->w == w) return a; if (isC(a)) return cst(a->val, w); if (a->k == KZExt) return zext(a->a, w); return raw(KZExt, w, 0, a, nullptr, nullptr, 0); }
  E sext(E a, unsigned w) { if (a->w == w) return a; if (isC(a)) return cst((uint64_t)sx(a->val, a->w), w); if (a->k == KSExt) return sext(a->a, w); if (a->lo >= 0) return zext(a, w); return raw(KSExt, w, 0, a, nullptr, nullptr, 0); }
  E extract(E a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    if (isC(a)) return cst(a->val >> off, w);
    if (a->k == KExtract) return extract(a->a, off + a->val, w);
    if (a->k == KConcat) { unsigned lw = a->b->w; if (off + w <= lw) return extract(a->b, off, w); if (off >= lw) return extract(a->a, off - lw, w); }
    if (a->k == KZExt) { unsigned iw = a->a->w; if (off >= iw) return cst(0, w); if (off + w <= iw) return extract(a->a, off, w); if (off == 0) return zext(a->a, w); return zext(extract(a->a, off, iw - off), w); }
    if (a->k == KSExt) { unsigned iw = a->a->w; if (off + w <= iw) return extract(a->a, off, w); if (off == 0) return sext(a->a, w); }
    if (a->k == KIte && (isC(a->b) || isC(a->c))) return ite(a->a, extract(a->b, off, w), extract(a->c, off, w));
    if (off == 0 && (a->k == KAdd || a->k == KSub || a->k == KMul || a->k == KAnd || a->k == KOr || a->k == KXor)) {
      if (a->k >= KAnd || isC(a->b) || a->a->k == KZExt || a->a->k == KSExt) return bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w)); }
    if (a->k == KAnd || a->k == KOr || a->k == KXor) return bin(a->k, extract(a->a, off, w), extract(a->b, off, w));
    return raw(KExtract, w, 0, a, nullptr, nullptr, off);
  }
  E concat(E hi, E lo) {
    if (isC(hi) && isC(lo)) return cst((hi->val << lo->w) | lo->val, hi->w + lo->w);
    if (isC(hi, 0)) return zext(lo, hi->w + lo->w);
    if (hi->k == KExtract && lo->k == KExtract && hi->a == lo->a && hi->val == lo->val + lo->w) return extract(hi->a, lo->val, hi->w + lo->w);
    if (hi->k == KExtract && hi->val >= lo->w && lo == extract(hi->a, hi->val - lo->w, lo->w)) return extract(hi->a, hi->val - lo->w, hi->w + lo->w); // low part was simplified
    return raw(KConcat, hi->w + lo->w, 0, hi, lo, nullptr, 0);
  }
  E ite(E c, E a, E b) {
    if (isC(c)) return c->val ? a : b; if (a == b) return a;
    if (c->k == KXor && isC(c->b, 1)) return ite(c->a, b, a);
    if (a->w == 1) { if (isC(a, 1)) return bin(KOr, c, b); if (isC(a, 0)) return bin(KAnd, not_(c), b); if (isC(b, 1)) return bin(KOr, not_(c), a); if (isC(b, 0)) return bin(KAnd, c, a); }
    if (a->k == KLane || b->k == KLane) { Ln x, y; if (toLane(a, x) && toLane(b, y)) { align(x, y); unsigned iw = std::max(x.e->w, y.e->w); return lane(ite(c, sext(x.e, iw), sext(y.e, iw)), x.k, a->w); } }
    if (a->k == KIte && a->a == c) a = a->b; if (b->k == KIte && b->a == c) b = b->c;
    if (a == b) return a;
    return raw(KIte, a->w, 0, c, a, b, 0);
  }
  // ---- lanes
  struct Ln { E e; int k; };
  static unsigned bitsFor(int64_t lo, int64_t hi) { unsigned w = 1; while (w < 64 && (lo < smin_w(w) || hi > smax_w(w))) w++; return w; }
  E norm(E e) { // shrink an integer expression to the width its interval needs
    unsigned n = bitsFor(e->lo, e->hi); if (n < 2) n = 2; if (n >= e->w) return e; int64_t l = e->lo, h = e->hi; E r = extract(e, 0, n); (void)l; (void)h; return r; }
  static int64_t maxExact(unsigned w) { return w == 32 ? (1ll << 24) : (1ll << 53); }
  E lane(E i, int k, unsigned w) {
    if (isC(i)) { double d = std::ldexp((double)sx(i->val, i->w), -k); return cst(fromdbl(d, w), w); }
    i = norm(i); E r = raw(KLane, w, k, i, nullptr, nullptr, 0); return r; }
  bool toLane(E f, Ln& o) {
    if (f->k == KLane) { o.e = f->a; o.k = f->aux; return true; }
    if (isC(f)) { double d = todbl(f->val, f->w); if (!(d == d) || std::isinf(d)) return false; if (d == 0) { o.e = cst(0, 2); o.k = 0; return true; }
      int k = 0; double m = d; while (k < 60 && m != std::floor(m)) { m *= 2; k++; } if (m != std::floor(m) || std::fabs(m) >= 9e15) return false;
      int64_t iv = (int64_t)m; unsigned n = bitsFor(iv, iv); if (n < 2) n = 2; o.e = cst((uint64_t)iv, n); o.k = k; return true; }
    return false;
  }
  bool shl_(Ln& x, int s) { if (s == 0) return true; int64_t l, h; if (s > 60 || __builtin_mul_overflow(x.e->lo, 1ll << s, &l) || __builtin_mul_overflow(x.e->hi, 1ll << s, &h)) return false; unsigned n = std::max<unsigned>(bitsFor(l, h), x.e->w); x.e = bin(KShl, sext(x.e, n), cst(s, n)); x.k += s; return true; }
  bool align(Ln& x, Ln& y) { if (x.k < y.k) return shl_(x, y.k - x.k); return shl_(y, x.k - y.k); }
  E fbin(Kind k, E a, E b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) return cst(cfbin(k, a->val, b->val, w), w);
    Ln x, y; int64_t l, h; int64_t M = maxExact(w);
    if (k == KFAdd || k == KFSub) {
      // adding 0.0
      if (isC(b) && todbl(b->val, w) == 0 && (k == KFSub || a->k == KLane)) return a;
      if (isC(a) && todbl(a->val, w) == 0 && k == KFAdd && b->k == KLane) return b;
      if (toLane(a, x) && toLane(b, y) && align(x, y)) {
        bool ov = k == KFAdd ? (__builtin_add_overflow(x.e->lo, y.e->lo, &l) | __builtin_add_overflow(x.e->hi, y.e->hi, &h)) : (__builtin_sub_overflow(x.e->lo, y.e->hi, &l) | __builtin_sub_overflow(x.e->hi, y.e->lo, &h));
        if (!ov && l >= -M && h <= M) { unsigned n = std::max<unsigned>(bitsFor(l, h), std::max(x.e->w, y.e->w)); return lane(bin(k == KFAdd ? KAdd : KSub, sext(x.e, n), sext(y.e, n)), x.k, w); }
      }
    } else if (k == KFMul) {
      if (isC(a) && todbl(a->val, w) == 1) return b; if (isC(b) && todbl(b->val, w) == 1) return a;
      if (toLane(a, x) && toLane(b, y)) {
        int64_t p[4]; bool ov = __builtin_mul_overflow(x.e->lo, y.e->lo, &p[0]) | __builtin_mul_overflow(x.e->lo, y.e->hi, &p[1]) | __builtin_mul_overflow(x.e->hi, y.e->lo, &p[2]) | __builtin_mul_overflow(x.e->hi, y.e->hi, &p[3]);
        if (!ov) { l = h = p[0]; for (int i = 1; i < 4; i++) { l = std::min(l, p[i]); h = std::max(h, p[i]); } if (l >= -M && h <= M && x.k + y.k < 60) { unsigned n = std::max<unsigned>(bitsFor(l, h), std::max(x.e->w, y.e->w)); return lane(bin(KMul, sext(x.e, n), sext(y.e, n)), x.k + y.k, w); } }
      }
    } else if (k == KFDiv) {
      if (isC(b) && b->val) { double d = todbl(b->val, w); int ex; double m = std::frexp(d, &ex); if (m == 0.5 || m == -0.5) { return fbin(KFMul, a, cst(fromdbl(1 / d, w), w)); } }
    }
    return raw(k, w, 0, a, b, nullptr, 0);
  }
  E fcmp(int p, E a, E b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) return cst(cfcmp(p, todbl(a->val, w), todbl(b->val, w)), 1);
    Ln x, y;
    bool la = a->k == KLane, lb = b->k == KLane;
    if (p == FP_UNO) { bool na = isC(a) && std::isnan(todbl(a->val, w)), nb = isC(b) && std::isnan(todbl(b->val, w)); if (na || nb) return cst(1, 1); if ((la || isC(a)) && (lb || isC(b))) return cst(0, 1); }
    else {
      if (la && isC(b)) { double d = todbl(b->val, w); if (std::isnan(d)) return cst(0, 1); double lo = std::ldexp((double)a->a->lo, -a->aux), hi = std::ldexp((double)a->a->hi, -a->aux); if (d > hi) return cst(p != FP_OEQ, 1); if (d < lo) return cst(0, 1); }
      if (lb && isC(a)) { double d = todbl(a->val, w); if (std::isnan(d)) return cst(0, 1); double lo = std::ldexp((double)b->a->lo, -b->aux), hi = std::ldexp((double)b->a->hi, -b->aux); if (d < lo) return cst(p != FP_OEQ, 1); if (d > hi) return cst(0, 1); }
      // a lane against a constant that is no lane of its precision: compare with the neighbouring multiples
      if (la != lb && (la ? isC(b) : isC(a))) { E L = la ? a : b; double d = std::ldexp(todbl(la ? b->val : a->val, w), L->aux); if (d != std::floor(d) && std::fabs(d) < 9e15) { int64_t f = (int64_t)std::floor(d); if (p == FP_OEQ) return cst(0, 1);
        unsigned n = std::max<unsigned>(std::max(2u, bitsFor(f, f)), L->a->w); return la ? bin(KSle, sext(L->a, n), cst((uint64_t)f, n)) : bin(KSlt, cst((uint64_t)f, n), sext(L->a, n)); } }
      if (toLane(a, x) && toLane(b, y) && align(x, y)) { unsigned n = std::max(x.e->w, y.e->w); return bin(p == FP_OEQ ? KEq : p == FP_OLT ? KSlt : KSle, sext(x.e, n), sext(y.e, n)); }
    }
    return raw(KFCmp, 1, p, a, b, nullptr, 0);
  }
  E fneg(E a) { if (isC(a)) return cst(a->val ^ (1ull << (a->w - 1)), a->w); if (a->k == KLane) return fbin(KFSub, cst(0, a->w), a); return raw(KFNeg, a->w, 0, a, nullptr, nullptr, 0); }
  E fabs_(E a) { if (isC(a)) return cst(a->val & maskw(a->w - 1), a->w); if (a->k == KLane) { if (a->a->lo >= 0) return a; return ite(bin(KSlt, a->a, cst(0, a->a->w)), fneg(a), a); } return raw(KFAbs, a->w, 0, a, nullptr, nullptr, 0); }
  E fsqrt(E a) { if (isC(a)) return cst(a->w == 32 ? fromdbl(sqrtf((float)todbl(a->val, 32)), 32) : fromdbl(std::sqrt(todbl(a->val, 64)), 64), a->w); return raw(KFSqrt, a->w, 0, a, nullptr, nullptr, 0); }
  static double cround(int m, double d) { switch (m) { case FR_FLOOR: return std::floor(d); case FR_CEIL: return std::ceil(d); case FR_TRUNC: return std::trunc(d); default: return std::nearbyint(d); } }
  E fround(int m, E a) { if (isC(a)) return cst(fromdbl(cround(m, todbl(a->val, a->w)), a->w), a->w);
    if (a->k == KLane) { if (a->aux == 0) return a; if (m == FR_FLOOR) return lane(bin(KAShr, a->a, cst(a->aux, a->a->w)), 0, a->w); if (m == FR_CEIL) { return fneg(fround(FR_FLOOR, fneg(a))); } }
    return raw(KFRound, a->w, m, a, nullptr, nullptr, 0); }
  E itofp(E a, bool sg, unsigned w) {
    if (isC(a)) { if (w == 32) return cst(fromdbl(sg ? (float)sx(a->val, a->w) : (float)a->val, 32), 32); return cst(fromdbl(sg ? (double)sx(a->val, a->w) : (double)a->val, 64), 64); }
    if (!sg && a->lo < 0) { if (a->w < 64) { a = zext(a, a->w + 1); sg = true; } } else sg = true;
    if (sg && a->lo >= -maxExact(w) && a->hi <= maxExact(w)) return lane(a, 0, w);
    return raw(sg ? KSIToFP : KUIToFP, w, 0, a, nullptr, nullptr, 0);
  }
  static uint64_t cfptoi(double d, bool sg, unsigned w) { if (sg) { if (!(d > -9.3e18 && d < 9.3e18)) return (1ull << (w - 1)); return (uint64_t)(int64_t)d & maskw(w); } if (!(d > -1 && d < 1.9e19)) return 0; return (uint64_t)d & maskw(w); }
  E fptoi(E a, bool sg, unsigned w) {
    if (isC(a)) return cst(cfptoi(todbl(a->val, a->w), sg, w), w);
    if (a->k == KLane) { E i = a->a; if (a->aux) { if (a->aux < 62) { unsigned n = std::max<unsigned>(i->w, a->aux + 2); i = sext(i, n); i = bin(KSDiv, i, cst(1ull << a->aux, n)); } else i = nullptr; }
      if (i) { if (i->w < w) return sext(i, w); return extract(i, 0, w); } }
    return raw(sg ? KFPToSI : KFPToUI, w, 0, a, nullptr, nullptr, 0);
  }
  E fpext(E a) { if (isC(a)) return cst(fromdbl(todbl(a->val, 32), 64), 64); if (a->k == KLane) return lane(a->a, a->aux, 64); if (a->k==KIte) return ite(a->a,fpext(a->b),fpext(a->c)); return raw(KFPExt, 64, 0, a, nullptr, nullptr, 0); }
  E fptrunc(E a) { if (isC(a)) return cst(fromdbl(todbl(a->val, 64), 32), 32); if (a->k == KLane && a->a->lo >= -maxExact(32) && a->a->hi <= maxExact(32)) return lane(a->a, a->aux, 32); if (a->k == KFPExt) return a->a; return raw(KFPTrunc, 32, 0, a, nullptr, nullptr, 0); }

  // ---- rewriting with the facts known on this path
  uint64_t marked = 0; uint32_t fixEpoch = 1;
  void mark(E e, E v) { if (isC(e) || e->sub) return; e->sub = v; marked |= e->sm; fixEpoch++; }
  void learn(E c) { // c (width 1) holds on this path
    if (isC(c)) return; mark(c, cst(1, 1));
    if (c->k == KXor && isC(c->b, 1)) mark(c->a, cst(0, 1)); else mark(not_(c), cst(0, 1));
    if (c->k == KEq) { if (isC(c->b)) mark(c->a, c->b); else if (isC(c->a)) mark(c->b, c->a); }
    if (c->k == KAnd) { learn(c->a); learn(c->b); }
    if (c->k == KXor && isC(c->b, 1) && c->a->k == KOr) { learn(not_(c->a->a)); learn(not_(c->a->b)); }
  }
  E rewrite(E e) {
    if (isC(e)) return e; if (e->sub) return e->sub; if (!(e->sm & marked)) return e; if (e->rwEpoch == fixEpoch) return e->rw; if (e->k == KSym) return e;
    uint32_t ep = fixEpoch; E a = e->a ? rewrite(e->a) : nullptr, b = e->b ? rewrite(e->b) : nullptr, c = e->c ? rewrite(e->c) : nullptr, r = e;
    if (a != e->a || b != e->b || c != e->c) {
      switch (e->k) {
      case KConcat: r = concat(a, b); break; case KExtract: r = extract(a, e->val, e->w); break; case KZExt: r = zext(a, e->w); break; case KSExt: r = sext(a, e->w); break; case KIte: r = ite(a, b, c); break;
      case KLane: r = lane(a, e->aux, e->w); break; case KFAdd: case KFSub: case KFMul: case KFDiv: r = fbin(e->k, a, b); break; case KFNeg: r = fneg(a); break; case KFAbs: r = fabs_(a); break; case KFSqrt: r = fsqrt(a); break; case KFCmp: r = fcmp(e->aux, a, b); break;
      case KSIToFP: r = itofp(a, true, e->w); break; case KUIToFP: r = itofp(a, false, e->w); break; case KFPToSI: r = fptoi(a, true, e->w); break; case KFPToUI: r = fptoi(a, false, e->w); break; case KFPExt: r = fpext(a); break; case KFPTrunc: r = fptrunc(a); break; case KFRound: r = fround(e->aux, a); break;
      default: r = bin(e->k, a, b); }
      if (r->sub) r = r->sub;
    }
    e->rw = r; e->rwEpoch = ep; return r;
  }
  // c is a literal about one symbol: returns the symbol and, for the other side, a value that falsifies (want=false) or satisfies it
  bool unitFlip(E c, bool want, unsigned& si, uint64_t& v) {
    bool neg = false; if (c->k == KXor && isC(c->b, 1)) { neg = true; c = c->a; } bool need = want != neg; // truth value needed for the core literal
    if (c->k == KSym && c->w == 1) { si = c->val; if (syms[si].ranged) return false; v = need; return true; }
    if (c->k == KEq && c->a->k == KSym && isC(c->b)) { si = c->a->val; const SymInfo& q = syms[si]; unsigned w = c->a->w; int64_t k = sx(c->b->val, w);
      if (need) { if (q.ranged && (k < q.lo || k > q.hi)) return false; v = c->b->val; return true; }
      if (q.ranged) { if (q.lo >= q.hi) return false; v = (uint64_t)(k == q.lo ? q.lo + 1 : q.lo) & maskw(w); } else v = (c->b->val ^ 1) & maskw(w); return true; }
    return false;
  }

  // ---- evaluation under the current model
  uint64_t eval(E e) {
    if (e->k == KConst) return e->val;
    if (e->k == KSym) return model[e->val];
    if (e->evalEpoch == epoch) return e->evalVal;
    uint64_t r = 0;
    switch (e->k) {
    case KConcat: r = (eval(e->a) << e->b->w) | eval(e->b); break;
    case KExtract: r = (eval(e->a) >> e->val) & maskw(e->w); break;
    case KZExt: r = eval(e->a); break;
    case KSExt: r = (uint64_t)sx(eval(e->a), e->a->w) & maskw(e->w); break;
    case KIte: r = eval(e->a) ? eval(e->b) : eval(e->c); break;
    case KLane: r = fromdbl(std::ldexp((double)sx(eval(e->a), e->a->w), -e->aux), e->w); break;
    case KFAdd: case KFSub: case KFMul: case KFDiv: r = cfbin(e->k, eval(e->a), eval(e->b), e->w); break;
    case KFNeg: r = eval(e->a) ^ (1ull << (e->w - 1)); break;
    case KFAbs: r = eval(e->a) & maskw(e->w - 1); break;
    case KFSqrt: r = e->w == 32 ? fromdbl(sqrtf((float)todbl(eval(e->a), 32)), 32) : fromdbl(std::sqrt(todbl(eval(e->a), 64)), 64); break;
    case KFCmp: r = cfcmp(e->aux, todbl(eval(e->a), e->a->w), todbl(eval(e->b), e->b->w)); break;
    case KSIToFP: r = e->w == 32 ? fromdbl((float)sx(eval(e->a), e->a->w), 32) : fromdbl((double)sx(eval(e->a), e->a->w), 64); break;
    case KUIToFP: r = e->w == 32 ? fromdbl((float)eval(e->a), 32) : fromdbl((double)eval(e->a), 64); break;
    case KFPToSI: r = cfptoi(todbl(eval(e->a), e->a->w), true, e->w); break;
    case KFPToUI: r = cfptoi(todbl(eval(e->a), e->a->w), false, e->w); break;
    case KFPExt: r = fromdbl(todbl(eval(e->a), 32), 64); break;
    case KFPTrunc: r = fromdbl(todbl(eval(e->a), 64), 32); break;
    case KFRound: r = fromdbl(cround(e->aux, todbl(eval(e->a), e->w)), e->w); break;
    default: r = cbin(e->k, eval(e->a), eval(e->b), e->a->w); break;
    }
    e->evalEpoch = epoch; e->evalVal = r; return r;
  }
};

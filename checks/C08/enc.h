// Byte-string keys of word-index vectors: lossless, injective, order-preserving, free of zero bytes.
#pragma once
#include "sym.h"
#ifndef NW
#define NW 2
#endif
typedef std::vector<WordIndex> Ph;
// Words are given by their base-254 digits, which is every value once; 32-bit words split into the boxes that fit.
static WordIndex word(const char* n, int i, bool wide, bool next, uint64_t* digits) { // next: a word whose successor is asked for; the carry splits the path
  static const int lo[5][5] = {{0, 0, 0, 0, 0}, {0, 0, 0, 0, 1}, {0, 0, 0, 8, 1}, {0, 0, 24, 8, 1}, {0, 31, 24, 8, 1}}, hi[5][5] = {{253, 253, 253, 253, 0}, {253, 253, 253, 7, 1}, {253, 253, 23, 8, 1}, {253, 30, 24, 8, 1}, {221, 31, 24, 8, 1}};
  std::string nm = std::string(n) + char('0' + i); int b = wide ? sym::choice((nm + "box").c_str(), 0, 4) : 0, carry = next ? sym::choice((nm + "carry").c_str(), 0, wide ? 4 : 2) : -1, nd = wide ? 5 : 3; uint64_t v = 0, pack = 0, pow = 1;
  for (int k = 0; k < nd; k++) { int l = lo[b][k], h = hi[b][k]; if (k < carry) { ASSUME(h == 253); l = 253; } else if (k == carry) { if (h == 253) h = 252; else if (k == 0 && b == 4) h = 220; else if (h == hi[b][k] && b) { if (l == h) { ASSUME(b != 4 || k != 1); } h = h; } }
    uint64_t d = l == h ? (uint64_t)l : (uint64_t)sym::range((nm + "d" + char('0' + k)).c_str(), l, h); v += d * pow; pack += d << (8 * k); pow *= 254; }
  *digits = pack; return (WordIndex)v; }
struct W { Ph v; std::vector<uint64_t> d; operator const Ph&() const { return v; } size_t size() const { return v.size(); } W cut() const { W r(*this); r.v.pop_back(); r.d.pop_back(); return r; } };
static W words(const char* n, int lo, int hi, WordIndex from, bool wide, bool next = false) { int k = sym::choice((std::string(n) + "l").c_str(), lo, hi); W r; for (int i = 0; i < k; i++) { uint64_t d; WordIndex w = word(n, i, wide, next, &d); ASSUME(d >= from); r.v.push_back(w); r.d.push_back(d); } return r; }
static int eqw(const W& a, const W& b) { if (a.size() != b.size()) return 0; int ok = 1; for (size_t i = 0; i < a.size(); i++) ok = sym::both(ok, a.d[i] == b.d[i]); return ok; }
static int same(const Ph& a, const Ph& b) { if (a.size() != b.size()) return 0; int ok = 1; for (size_t i = 0; i < a.size(); i++) ok = sym::both(ok, a[i] == b[i]); return ok; }
static int eqs(const std::string& a, const std::string& b) { if (a.size() != b.size()) return 0; int ok = 1; for (size_t i = 0; i < a.size(); i++) ok = sym::both(ok, a[i] == b[i]); return ok; }
// bytewise (unsigned) key order, as the stores use it, without splitting paths; -1 less, 0 equal, 1 greater
static int cmps(const std::string& a, const std::string& b) { int r = a.size() < b.size() ? -1 : a.size() > b.size(); for (size_t i = std::min(a.size(), b.size()); i-- > 0;) { unsigned x = (unsigned char)a[i], y = (unsigned char)b[i]; r = (int)__sym_ite(x == y, (uint64_t)(int64_t)r, __sym_ite(x < y, (uint64_t)(int64_t)-1, 1)); } return r; }
static int cmpw(const W& a, const W& b) { int r = a.size() < b.size() ? -1 : a.size() > b.size(); for (size_t i = std::min(a.size(), b.size()); i-- > 0;) r = (int)__sym_ite(a.d[i] == b.d[i], (uint64_t)(int64_t)r, __sym_ite(a.d[i] < b.d[i], (uint64_t)(int64_t)-1, 1)); return r; }
static int nozero(const std::string& s) { int ok = 1; for (size_t i = 0; i < s.size(); i++) ok = sym::both(ok, s[i] != 0); return ok; }

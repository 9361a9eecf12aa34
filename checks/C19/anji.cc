// Expected-count buffers: values per sentence and position, retention limit, reset, files.
#include "sym.h"
#include <iostream>
#include "anjiMatrix.h"
#include "anjm1ip_anjiMatrix.h"
#include "DoubleMatrix.h"
#ifndef NO
#define NO 4
#endif
// both buffers behind one interface (the second one has an additional source position)
struct A1 { anjiMatrix m; static const int P = 3; static void pos(int p, unsigned& j, unsigned& i, unsigned& ip) { j = p & 1; i = p == 2 ? 2 : p; ip = 0; }
  void set(int n, int p, float f) { unsigned j, i, ip; pos(p, j, i, ip); m.set(n, j, i, f); } void fast(unsigned n, int p, float f) { unsigned j, i, ip; pos(p, j, i, ip); m.set_fast(n, j, i, f); } float get(int n, int p) { unsigned j, i, ip; pos(p, j, i, ip); return m.get(n, j, i); } float invp(int n, int p) { unsigned j, i, ip; pos(p, j, i, ip); return m.get_invp(n, j, i); } float invlogp(int n, int p) { unsigned j, i, ip; pos(p, j, i, ip); return m.get_invlogp(n, j, i); } float gfast(unsigned n, int p) { unsigned j, i, ip; pos(p, j, i, ip); return m.get_fast(n, j, i); } float fastinvp(unsigned n, int p) { unsigned j, i, ip; pos(p, j, i, ip); return m.get_invp_fast(n, j, i); } float fastinvlogp(unsigned n, int p) { unsigned j, i, ip; pos(p, j, i, ip); return m.get_invlogp_fast(n, j, i); } };
struct A2 { anjm1ip_anjiMatrix m; static const int P = 4; static void pos(int p, unsigned& j, unsigned& i, unsigned& ip) { j = p & 1; i = p == 2 ? 2 : 1; ip = p == 3 ? 2 : p == 1 ? 1 : 0; }
  void set(int n, int p, float f) { unsigned j, i, ip; pos(p, j, i, ip); m.set(n, j, i, ip, f); } void fast(unsigned n, int p, float f) { unsigned j, i, ip; pos(p, j, i, ip); m.set_fast(n, j, i, ip, f); } float get(int n, int p) { unsigned j, i, ip; pos(p, j, i, ip); return m.get(n, j, i, ip); } float invp(int n, int p) { unsigned j, i, ip; pos(p, j, i, ip); return m.get_invp(n, j, i, ip); } float invlogp(int n, int p) { unsigned j, i, ip; pos(p, j, i, ip); return m.get_invlogp(n, j, i, ip); } float gfast(unsigned n, int p) { unsigned j, i, ip; pos(p, j, i, ip); return m.get_fast(n, j, i, ip); } float fastinvp(unsigned n, int p) { unsigned j, i, ip; pos(p, j, i, ip); return m.get_invp_fast(n, j, i, ip); } float fastinvlogp(unsigned n, int p) { unsigned j, i, ip; pos(p, j, i, ip); return m.get_invlogp_fast(n, j, i, ip); } };
static const int NS = 4;
// reference: the sentences held, oldest first, with their values
struct Ref { int lim; std::vector<int> order; std::map<std::pair<int, int>, float> v; Ref() : lim(-1) {} bool has(int n) { for (int x : order) if (x == n) return true; return false; } void forget(int n) { for (auto i = v.begin(); i != v.end();) if (i->first.first == n) v.erase(i++); else ++i; }
  // the buffer is a ring: a new sentence takes the place of the one that came longest ago
  void touch(int n) { if (lim == 0 || has(n)) return; if (lim > 0 && (int)order.size() == lim) { forget(order[0]); order.erase(order.begin()); } order.push_back(n); }
  void set(int n, int p, float f) { if (lim == 0) return; touch(n); v[std::make_pair(n, p)] = f; } };
template <class A> static void agree(A& a, Ref& r) { for (int n = 0; n < NS; n++) for (int p = 0; p < A::P; p++) { std::pair<int, int> k(n, p); bool in = r.v.count(k); float e = in ? r.v[k] : 99; CHECKV(a.get(n, p) == e, "a value is the last one stored for its sentence and position"); CHECKV(a.invp(n, p) == (in ? e : 0) && a.invlogp(n, p) == (in ? e : -99999.f), "missing values read as zero probability"); } }
template <class A> static void history() {
  std::cerr.setstate(std::ios::failbit); A a; Ref r; int lim = sym::choice("lim", -1, 3); if (lim >= 0) { a.m.set_maxnsize(lim); r.lim = lim; CHECK(a.m.get_maxnsize() == (unsigned)lim, "the limit is the one set"); } int k = sym::choice("n", 1, NO);
  for (int i = 0; i < k; i++) { float v = (float)sym::fix("v", i, -2048, 2048, 5); int n = i ? sym::choice("s", i, 0, i < 3 ? i : 3) : 1; int p = (i * 2 + n) % A::P; int op = i == 2 ? sym::choice("op", i, 0, 2) : i == 3 ? sym::choice("op", i, 0, 1) : 0;
    if (op == 1 && r.has(n)) op = 0; // entries grown value by value are not used with fast access
    if (op == 0) { a.set(n, p, v); r.set(n, p, v); } else if (op == 1) { unsigned mn = 77; bool ok = a.m.init_nth_entry(n, 2, 1, mn) == THOT_OK; CHECK(ok == (lim != 0), "entries are prepared unless nothing is retained"); r.touch(n); if (ok) { for (int q = 0; q < A::P; q++) { float w = v + (float)q; a.fast(mn, q, w); r.set(n, q, w); CHECKV(a.gfast(mn, q) == w && a.fastinvp(mn, q) == w && a.fastinvlogp(mn, q) == w, "fast access reads what fast access stored"); } a.fast(mn, 0, 99); r.v.erase(std::make_pair(n, 0)); CHECK(a.fastinvp(mn, 0) == 0 && a.fastinvlogp(mn, 0) == -99999.f, "missing values read as zero probability"); } }
    else { if (i & 1) { a.m.clear(); r.order.clear(); r.v.clear(); } else { CHECK((a.m.reset_entries() == THOT_OK) == (lim != 0), "entries are reset unless nothing is retained"); r.v.clear(); } } }
  agree(a, r); a.m.clear(); r.order.clear(); r.v.clear(); agree(a, r); a.set(2, 1, 1.5f); r.set(2, 1, 1.5f); agree(a, r); if (lim > 0 && k > lim) COVER("limit reached"); COVER("history"); }
HARNESS(h_anji) { history<A1>(); }
HARNESS(h_anjm1ip) { history<A2>(); }
// preparing an entry that has room keeps its values
template <class A> static void prepare() { A a; int lim = sym::choice("lim", 0, 2); if (lim) a.m.set_maxnsize(lim); unsigned m1 = 0, m2 = 0; a.m.init_nth_entry(3, 2, 1, m1); Ref r; r.lim = lim ? lim : -1; for (int q = 0; q < A::P; q++) { float v = (float)sym::fix("v", q, -64, 64, 2); a.fast(m1, q, v); r.set(3, q, v); } int l = sym::choice("l", 0, 2), t = sym::choice("t", 0, 1); a.m.init_nth_entry(3, l, t, m2); CHECK(m1 == m2, "a sentence keeps its place"); agree(a, r); CHECK(a.m.n_size() == m1 + 1 && a.m.nj_size(m1) == 2 && a.m.nji_size(m1, 1) == 3, "sizes are those prepared"); a.m.init_nth_entry(3, 4, 3, m2); r.forget(3); agree(a, r); for (int q = 0; q < A::P; q++) { a.fast(m2, q, 2); r.set(3, q, 2); } agree(a, r); COVER("prepared"); }
HARNESS(h_prep1) { prepare<A1>(); }
HARNESS(h_prep2) { prepare<A2>(); }
// written buffers load back with their values and their limit, also into a buffer that had another limit, and go on alike
template <class A> static void files() {
  std::cerr.setstate(std::ios::failbit); A a, b; Ref r; int lim = sym::choice("lim", -1, 3), blim = sym::choice("blim", -1, 2); if (lim >= 0) { a.m.set_maxnsize(lim); r.lim = lim; } if (blim >= 0) b.m.set_maxnsize(blim); b.set(0, 0, 5); b.set(3, 1, 6); int k = sym::choice("n", 0, NO - 1);
  for (int i = 0; i < k; i++) { int n = sym::choice("s", i, 0, i + 1); float v = -0.25f * (i + 1); a.set(n, (i + n) % A::P, v); r.set(n, (i + n) % A::P, v); if (i == 1 && sym::choice("drop", 0, 1)) { unsigned mn; r.touch(3); a.m.init_nth_entry(3, 0, 0, mn); } }
  std::map<std::pair<int, int>, float> was = r.v; agree(a, r); std::string pref = lim < 0 ? "anjif" : "anjir"; CHECK(a.m.print(pref.c_str()) == THOT_OK, "a buffer is written"); CHECK(b.m.load(pref.c_str()) == THOT_OK, "a written buffer loads back"); agree(b, r); CHECK(b.m.get_maxnsize() == a.m.get_maxnsize(), "the limit is written with the buffer");
  for (int i = 0; i < 2; i++) { int n = i ? 3 : 0; a.set(n, 2, 7.5f); b.set(n, 2, 7.5f); r.set(n, 2, 7.5f); } agree(a, r); agree(b, r); CHECK(b.m.load("missing") == THOT_ERROR, "a missing file is an error"); COVER("files"); }
HARNESS(h_file1) { files<A1>(); }
HARNESS(h_file2) { files<A2>(); }
// the plain growing matrix
HARNESS(h_double) { DoubleMatrix m; std::map<std::pair<int, int>, double> r; int k = sym::choice("n", 0, NO - 1); for (int i = 0; i < k; i++) { int x = sym::choice("x", i, 0, 2), y = sym::choice("y", i, 0, 2); double v = sym::fix("v", i, -2048, 2048, 5); m.set(x, y, v); r[std::make_pair(x, y)] = v; }
  for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) { double v = m.get(x, y); bool in = r.count(std::make_pair(x, y)); CHECKV(in ? v == r[std::make_pair(x, y)] : v == INVALID_DM_VAL, "a matrix holds the last value stored"); } m.clear(); CHECK(m.i_size() == 0 && m.get(0, 0) == INVALID_DM_VAL, "clearing empties the matrix"); COVER("double"); }

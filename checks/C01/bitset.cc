// Bitset<N> against the mathematical set of bit positions 0..N-1; every word of both operands,
// every index and distance is symbolic. The reference is written bit by bit.
#include "sym.h"
#include "Bitset.h"
#include <sstream>
template <size_t N> struct Ref { bool b[N]; };
template <size_t N> static Bitset<N> sym_bs(const char* n, Ref<N>& r) {
  const unsigned W = (N + 31) / 32; unsigned int w[W];
  for (unsigned i = 0; i < W; i++) { unsigned k = N - 32 * i < 32 ? (unsigned)(N - 32 * i) : 32u; w[i] = (unsigned)sym::bits(n, (int)i, k); }
  for (unsigned k = 0; k < N; k++) r.b[k] = (w[k / 32] >> (k % 32)) & 1;
  return Bitset<N>(w);
}
template <size_t N> static int same(const Bitset<N>& s, const Ref<N>& r) { int ok = 1; for (unsigned k = 0; k < N; k++) ok = sym::both(ok, s.test(k) == r.b[k]); return ok; }
template <size_t N> static unsigned card(const Ref<N>& r, unsigned j) { unsigned c = 0; for (unsigned k = 0; k < j && k < N; k++) c += r.b[k]; return c; }
template <size_t N> static void algebra() {
  Ref<N> ra, rb, rr; Bitset<N> a = sym_bs<N>("a", ra), b = sym_bs<N>("b", rb);
  CHECK(same(a, ra), "construction from words keeps every bit");
  { Bitset<N> x = a; x &= b; for (unsigned k = 0; k < N; k++) rr.b[k] = ra.b[k] & rb.b[k]; CHECK(same(x, rr), "and is intersection"); }
  { Bitset<N> x = a; x |= b; for (unsigned k = 0; k < N; k++) rr.b[k] = ra.b[k] | rb.b[k]; CHECK(same(x, rr), "or is union"); }
  { Bitset<N> x = a; x ^= b; for (unsigned k = 0; k < N; k++) rr.b[k] = ra.b[k] ^ rb.b[k]; CHECK(same(x, rr), "xor is symmetric difference"); }
  { size_t p = (size_t)sym::range("p", 0, N - 1); Bitset<N> x = a; x.set(p); for (unsigned k = 0; k < N; k++) rr.b[k] = ra.b[k] | (k == p); CHECK(same(x, rr), "set adds exactly one position");
    Bitset<N> y = a; y.reset(p); for (unsigned k = 0; k < N; k++) rr.b[k] = ra.b[k] & (k != p); CHECK(same(y, rr), "reset removes exactly one position");
    int v = (int)sym::range("v", 0, 1); Bitset<N> z = a; z.set(p, v); for (unsigned k = 0; k < N; k++) rr.b[k] = k == p ? v != 0 : ra.b[k]; CHECK(same(z, rr), "set with a value assigns that value"); COVER("index ops"); }
}
template <size_t N> static void order() {
  Ref<N> ra, rb, rr; Bitset<N> a = sym_bs<N>("a", ra), b = sym_bs<N>("b", rb);
  { int eq = 1; for (unsigned k = 0; k < N; k++) eq = sym::both(eq, ra.b[k] == rb.b[k]);
    bool lt = a < b, gt = a > b, e = a == b, ne = a != b; CHECK(e == (eq != 0), "equality is equality of sets"); CHECK(ne == !e, "inequality is the negation of equality");
    int rlt = 0; for (unsigned k = 0; k < N; k++) rlt = ra.b[k] == rb.b[k] ? rlt : (rb.b[k] ? 1 : 0); // highest differing bit decides
    CHECK(lt == (rlt != 0), "order compares as binary numbers"); CHECK(gt == (!lt && !e), "exactly one of less, equal, greater"); COVER("order"); }
  { Bitset<N> x; x.set(); Bitset<N> y; for (unsigned k = 0; k < N; k++) y.set(k); CHECK(x == y, "setting all equals setting each"); x ^= a; for (unsigned k = 0; k < N; k++) rr.b[k] = !ra.b[k]; CHECK(same(x, rr), "complement through xor"); 
    Bitset<N> c = a; c |= x; CHECK(c == y, "union with the complement is everything"); Bitset<N> z = a; z.reset(); Bitset<N> zero; CHECK(z == zero && z.count() == 0, "reset empties the set"); }
}
template <size_t N> static void shift() {
  Ref<N> ra, rr; Bitset<N> a = sym_bs<N>("a", ra); unsigned d = (unsigned)sym::choice("d", 0, N + 40);
  for (unsigned k = 0; k < N; k++) rr.b[k] = k + d < N ? ra.b[k + d] : false;
  Bitset<N> x = a >> d; CHECK(same(x, rr), "shift moves every bit by the distance"); CHECK(same(a, ra), "shift leaves its operand alone"); a >>= d; CHECK(a == x, "in-place shift agrees"); COVER("shift");
}
template <size_t N> static void count() {
  Ref<N> ra; Bitset<N> a = sym_bs<N>("a", ra); unsigned j = (unsigned)sym::choice("j", 0, N);
  unsigned c = 0, d = 0; for (unsigned k = 0; k < N; k++) { ASSUME(k < 3 || k + 3 >= N || (k >= 30 && k <= 33) || (k >= 62 && k <= 65) || !ra.b[k]); } // symbolic members at both ends and at the word boundaries
  c = (unsigned)a.count(j); d = card(ra, j); CHECK(c == d, "count is the number of members below J"); COVER("count");
}
template <size_t N> static void arith() {
  Ref<N> ra, rb, rr; Bitset<N> a = sym_bs<N>("a", ra), b = sym_bs<N>("b", rb);
  { Bitset<N> x = a; ++x; bool c = true; for (unsigned k = 0; k < N; k++) { rr.b[k] = ra.b[k] ^ c; c = ra.b[k] & c; } CHECK(same(x, rr), "increment is binary increment"); }
  { Bitset<N> x = a; x + b; bool c = false; for (unsigned k = 0; k < N; k++) { bool p = ra.b[k], q = rb.b[k]; rr.b[k] = p ^ q ^ c; c = (p & q) | (c & (p ^ q)); } CHECK(same(x, rr), "sum is binary addition"); }
  unsigned long v = 0; for (unsigned k = 0; k < N && k < 64; k++) v |= (unsigned long)ra.b[k] << k; Bitset<N> y(v); for (unsigned k = 0; k < N; k++) rr.b[k] = k < 64 && ((v >> k) & 1); CHECK(same(y, rr), "construction from a long keeps its low bits");
  CHECK(a.to_ulong() == v, "conversion to long gives the low bits"); CHECK(a.to_uint() == (unsigned)v, "conversion to int gives the low bits");
  Bitset<N> z((unsigned int)v); for (unsigned k = 0; k < N; k++) rr.b[k] = k < 32 && ((v >> k) & 1); CHECK(same(z, rr), "construction from an int keeps its bits"); COVER("arith");
}
HARNESS(h_algebra_20) { algebra<20>(); } HARNESS(h_algebra_32) { algebra<32>(); } HARNESS(h_algebra_40) { algebra<40>(); } HARNESS(h_algebra_64) { algebra<64>(); } HARNESS(h_algebra_100) { algebra<100>(); }
HARNESS(h_order_32) { order<32>(); } HARNESS(h_order_40) { order<40>(); } HARNESS(h_order_100) { order<100>(); } HARNESS(h_order_160) { order<160>(); }
HARNESS(h_shift_32) { shift<32>(); } HARNESS(h_shift_40) { shift<40>(); } HARNESS(h_shift_100) { shift<100>(); }
HARNESS(h_count_32) { count<32>(); } HARNESS(h_count_70) { count<70>(); }
HARNESS(h_arith_32) { arith<32>(); } HARNESS(h_arith_64) { arith<64>(); } HARNESS(h_arith_96) { arith<96>(); } HARNESS(h_algebra_160) { algebra<160>(); }

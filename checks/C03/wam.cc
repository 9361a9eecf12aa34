// WordAligMatrix as a set of links; every link of both operands is symbolic.
#include "sym.h"
#include "WordAligMatrix.h"
#include <sstream>
#ifndef BIG
#define BIG 0
#endif
typedef WordAligMatrix W;
struct B { unsigned I, J; unsigned c[8][8]; };
static B bits(const char* n, unsigned I, unsigned J) { B b; b.I = I; b.J = J; for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) b.c[i][j] = (unsigned)sym::bits(n, (int)(i * J + j), 1); return b; }
static void put(W& w, const B& b) { w.init(b.I, b.J); for (unsigned i = 0; i < b.I; i++) for (unsigned j = 0; j < b.J; j++) w.setValue(i, j, b.c[i][j]); }
static int same(const W& w, const B& b) { int ok = w.get_I() == b.I && w.get_J() == b.J; for (unsigned i = 0; i < b.I; i++) for (unsigned j = 0; j < b.J; j++) ok = sym::both(ok, w.getValue(i, j) == b.c[i][j]); return ok; }
static void dims(unsigned& I, unsigned& J, int maxc) { I = sym::choice("I", 1, 4); J = sym::choice("J", 1, 4); ASSUME((int)(I * J) <= maxc); }
HARNESS(h_sets) {
  unsigned I, J; dims(I, J, 4); B a = bits("a", I, J), b = bits("b", I, J), r = a; W wa, wb; put(wa, a); put(wb, b);
  CHECK(same(wa, a), "links are stored as set");
  { W w(wa); w &= wb; for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) r.c[i][j] = a.c[i][j] & b.c[i][j]; CHECK(same(w, r), "intersection"); }
  { W w(wa); w |= wb; for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) r.c[i][j] = a.c[i][j] | b.c[i][j]; CHECK(same(w, r), "union"); }
  { W w(wa); w ^= wb; for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) r.c[i][j] = a.c[i][j] ^ b.c[i][j]; CHECK(same(w, r), "symmetric difference"); }
  { W w(wa); w += wb; for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) r.c[i][j] = a.c[i][j] + b.c[i][j]; CHECK(same(w, r), "sum counts both"); }
  { W w(wa); w -= wb; for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) r.c[i][j] = a.c[i][j] & (1 ^ b.c[i][j]); CHECK(same(w, r), "difference"); }
  CHECK(same(wb, b), "the operand is left alone");
}
HARNESS(h_unary) {
  unsigned I, J; dims(I, J, 6); B a = bits("a", I, J), r = a; W wa; put(wa, a);
  { W w(wa); w.flip(); for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) r.c[i][j] = 1 ^ a.c[i][j]; CHECK(same(w, r), "flip complements"); }
  { W w(wa); w.transpose(); B t; t.I = J; t.J = I; for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) t.c[j][i] = a.c[i][j]; CHECK(same(w, t), "transpose swaps the sentences"); w.transpose(); CHECK(same(w, a), "transposing twice is the identity"); }
  { W w; w = wa; CHECK(same(w, a), "assignment copies"); W& z = w; w = z; CHECK(same(w, a), "self assignment changes nothing"); w.reset(); CHECK(same(wa, a), "copies are independent"); for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) r.c[i][j] = 0; CHECK(same(w, r), "reset removes every link"); w.set(); for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) r.c[i][j] = 1; CHECK(same(w, r), "set adds every link"); 
    unsigned p = sym::range("p", 0, 5), q = sym::range("q", 0, 5); W y(wa); y.set(sym::conc(p), sym::conc(q)); r = a; if (p < I && q < J) r.c[sym::conc(p)][sym::conc(q)] = 1; CHECK(same(y, r), "setting one link, out of range ignored"); COVER("set one"); }
  for (unsigned j = 0; j < J; j++) { unsigned any = 0; for (unsigned i = 0; i < I; i++) any |= a.c[i][j]; CHECK(wa.jAligned(j) == (any != 0), "a column is aligned exactly when it has a link"); }
  for (unsigned i = 0; i < I; i++) { unsigned any = 0; for (unsigned j = 0; j < J; j++) any |= a.c[i][j]; CHECK(wa.iAligned(i) == (any != 0), "a row is aligned exactly when it has a link"); }
}
HARNESS(h_equal) { unsigned I, J; dims(I, J, 6); B a = bits("a", I, J); W wa, wb; put(wa, a); unsigned K = sym::choice("K", 1, 4), L = sym::choice("L", 1, 4); ASSUME(K * L <= 6); B b = bits("b", K, L); put(wb, b);
  int eq = I == K && J == L; if (eq) for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) eq = sym::both(eq, a.c[i][j] == b.c[i][j]); bool e = wa == wb; CHECK(e == (eq != 0), "equality is same size and same links"); if (I != K || J != L) { W w(wa); w &= wb; w |= wb; w ^= wb; w += wb; w -= wb; w.symmetr1(wb); w.symmetr2(wb); w.growDiagFinal(wb); CHECK(same(w, a), "operands of another size are ignored"); COVER("other size"); } }
HARNESS(h_vector) { // alignment vectors: one source position or none for each target word
  unsigned I = sym::choice("I", 1, 3), J = sym::choice("J", 1, 3); std::vector<PositionIndex> v; for (unsigned j = 0; j < J; j++) v.push_back((PositionIndex)sym::range("v", (int)j, 0, I));
  W w(I, J); w.putAligVec(v); for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) CHECK(w.getValue(i, j) == (v[j] == i + 1 ? 1u : 0u), "an alignment vector gives its links");
  std::vector<PositionIndex> b; bool ok = w.getAligVec(b); CHECK(ok, "a functional alignment has a vector"); CHECK(b.size() == J, "one entry per target word"); for (unsigned j = 0; j < J; j++) CHECK(b[j] == v[j], "the vector read back is the one stored"); COVER("roundtrip");
  if (I >= 2) { unsigned q = sym::choice("q", 0, J - 1), p1 = sym::choice("p1", 0, I - 1), p2 = sym::choice("p2", 0, I - 1); if (p1 != p2) { w.set(p1, q); w.set(p2, q); CHECK(!w.getAligVec(b), "a target word with two links has no vector"); COVER("not functional"); } } }
static unsigned rowAny(const B& b, unsigned i) { unsigned r = 0; for (unsigned j = 0; j < b.J; j++) r |= b.c[i][j]; return r; }
static unsigned colAny(const B& b, unsigned j) { unsigned r = 0; for (unsigned i = 0; i < b.I; i++) r |= b.c[i][j]; return r; }
static unsigned horiz(const B& b, unsigned i, unsigned j) { return (j > 0 ? b.c[i][j - 1] : 0) | (j + 1 < b.J ? b.c[i][j + 1] : 0); }
static unsigned vert(const B& b, unsigned i, unsigned j) { return (i > 0 ? b.c[i - 1][j] : 0) | (i + 1 < b.I ? b.c[i + 1][j] : 0); }
static B read(const W& w) { B b; b.I = w.get_I(); b.J = w.get_J(); for (unsigned i = 0; i < b.I; i++) for (unsigned j = 0; j < b.J; j++) b.c[i][j] = w.getValue(i, j) != 0; return b; }
static void frame(const B& a, const B& b, const B& r) { CHECK(r.I == a.I && r.J == a.J, "symmetrised alignment keeps the size"); int in = 1, out = 1; for (unsigned i = 0; i < a.I; i++) for (unsigned j = 0; j < a.J; j++) { in = sym::both(in, (a.c[i][j] & b.c[i][j] & (1 ^ r.c[i][j])) == 0); out = sym::both(out, (r.c[i][j] & (1 ^ (a.c[i][j] | b.c[i][j]))) == 0); } CHECK(in, "every link of the intersection is kept"); CHECK(out, "only links of the union are added"); }
static void symmOf(int kind, unsigned I, unsigned J, const B& a, const B& b) {
  W wa, wb; put(wa, a); put(wb, b);
  W w(wa); if (kind == 1) w.symmetr1(wb); else if (kind == 2) w.symmetr2(wb); else w.growDiagFinal(wb); B r = read(w); frame(a, b, r); CHECK(same(wb, b), "the second operand is left alone");
  for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) { unsigned left = (a.c[i][j] | b.c[i][j]) & (1 ^ r.c[i][j]); unsigned ra = rowAny(r, i), ca = colAny(r, j), h = horiz(r, i, j), v = vert(r, i, j);
    if (kind == 1) { CHECK((left & (1 ^ (ra | ca))) == 0, "no union link between unaligned words is left out"); CHECK((left & (ra | ca) & (h | v)) == 0, "no union link adjacent to the alignment is left out"); }
    else if (kind == 2) { CHECK((left & (1 ^ (ra | ca))) == 0, "refined: no union link between unaligned words is left out"); CHECK((left & (h | v) & (1 ^ (h & v))) == 0, "refined: no admissible neighbour is left out"); unsigned added = r.c[i][j] & (1 ^ (a.c[i][j] & b.c[i][j])); (void)added; }
    else CHECK((left & (1 ^ (ra & ca))) == 0, "no directed link of a word still unaligned is left out"); }
  if (kind != 3) { W w2(wb); if (kind == 1) w2.symmetr1(wa); else w2.symmetr2(wa); CHECK(same(w2, r), "the order of the two directions does not matter"); }
  // every link beyond the intersection is justified: replay the standard definition
  B g; g = a; for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) g.c[i][j] = a.c[i][j] & b.c[i][j];
  if (kind == 3) {
    for (unsigned it = 0; it <= I * J; it++) for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) for (int di = -1; di <= 1; di++) for (int dj = -1; dj <= 1; dj++) { int x = (int)i + di, y = (int)j + dj; if ((!di && !dj) || x < 0 || y < 0 || x >= (int)I || y >= (int)J) continue; unsigned add = g.c[i][j] & (a.c[x][y] | b.c[x][y]) & (1 ^ (rowAny(g, x) & colAny(g, y))); g.c[x][y] |= add; }
    for (int d = 0; d < 2; d++) for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) g.c[i][j] |= (d ? b : a).c[i][j] & (1 ^ (rowAny(g, i) & colAny(g, j)));
  } else for (unsigned it = 0; it <= I * J; it++) for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) { unsigned un = (a.c[i][j] | b.c[i][j]), free = 1 ^ (rowAny(g, i) | colAny(g, j)), h = horiz(g, i, j), v = vert(g, i, j); g.c[i][j] |= un & (free | (kind == 1 ? (h | v) : (h ^ v))); }
  int ok = 1; for (unsigned i = 0; i < I; i++) for (unsigned j = 0; j < J; j++) ok = sym::both(ok, g.c[i][j] == r.c[i][j]);
  CHECK(ok, "links added are those of the growing heuristic"); COVER("symmetrised");
}
static void symm(int kind, int maxc) { unsigned I = sym::choice("I", 1, 5), J = sym::choice("J", 1, 5); ASSUME((int)(I * J) <= maxc); B a = bits("a", I, J), b = bits("b", I, J); symmOf(kind, I, J, a, b); }
// long chains of links in larger sentences: every mixture of states along a (falling or climbing) line, plus one link
HARNESS(h_chain) {
  int kind = sym::choice("kind", 1, 3), n = kind == 3 ? 5 : 4, up = sym::choice("up", 0, 1), swap = sym::choice("swap", 0, 1); B a; a.I = a.J = n; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a.c[i][j] = 0; B b = a; int k = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int y = up ? n - 1 - i : i; if (j != y && (kind == 3 || j != y + 1)) continue; unsigned in = (unsigned)sym::bits("in", k, 1), both = BIG ? (unsigned)sym::bits("two", k, 1) : in & (unsigned)sym::bits("two", k, 1); a.c[i][j] = in; b.c[i][j] = both; k++; }
  if (kind == 3) { int x = sym::choice("x", 0, 2 * n - 1); if (x < n) b.c[0][x] = 1; else if (x > n) b.c[x - n][0] = 1; } if (swap) { B t = a; a = b; b = t; } symmOf(kind, n, n, a, b); COVER("chain"); }
HARNESS(h_symm1) { symm(1, BIG ? 9 : 6); } HARNESS(h_symm2) { symm(2, BIG ? 9 : 6); } HARNESS(h_gdf) { symm(3, BIG ? 8 : 6); }
HARNESS(h_segments) { // rows grouped by their source segment: cuts partition the target
  unsigned I = sym::choice("I", 1, 3), J = sym::choice("J", 1, 3); B a = bits("a", I, J); W w; put(w, a); std::vector<std::pair<unsigned, unsigned> > s; std::vector<unsigned> c; w.wordAligAsVectors(s, c);
  CHECK(!c.empty() && c.back() == I, "the last cut ends the target sentence"); for (size_t k = 1; k < c.size(); k++) CHECK(c[k - 1] < c[k], "cuts increase"); CHECK(s.size() >= c.size(), "every target segment has a source segment"); for (size_t k = 0; k < s.size(); k++) CHECK(s[k].first <= s[k].second && s[k].second <= J, "source segments are intervals inside the sentence"); COVER("segments");
}

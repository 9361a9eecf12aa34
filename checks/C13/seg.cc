// Segment length, target cut and source segment length tables.
#include "sym.h"
#include "SegLenTable.h"
#include "SrcSegmLenTable.h"
#include "TrgSegmLenTable.h"
#include "TrgCutsTable.h"
#include <sstream>
#include <math.h>
#include <map>
#ifndef NOPS
#define NOPS 3
#endif
typedef std::pair<unsigned, unsigned> P;
static const unsigned at[] = {0, 1, 50, 99, 100, 101, 102, 5000, 4294967295u};
static const unsigned M = MAX_SENTENCE_LENGTH;
static void same(SegLenTable& t, std::map<P, double>& c, std::map<unsigned, double>& m) { unsigned tl = at[sym::choice("qt", 0, 8)], k = at[sym::choice("qk", 0, 8)]; double p = (double)t.pk_tlen(tl, k); if (tl >= M || k >= M) { CHECK(p == 0, "lengths beyond the limit have probability zero"); COVER("beyond"); return; } double e = m.count(tl) && m[tl] > 0 ? (c.count(P(tl, k)) ? c[P(tl, k)] : 0) / m[tl] : 0; CHECK(fabs(p - e) < 1e-12, "probabilities are ratios of counts"); }
static void fill(SegLenTable& t, std::map<P, double>& c, std::map<unsigned, double>& m) { int n = sym::choice("n", 0, NOPS); for (int i = 0; i < n; i++) { unsigned tl = NOPS == 2 ? (sym::choice("t", i, 0, 1) ? 100 : 1) : at[sym::choice("t", i, 1, 3)], k = NOPS == 2 ? (sym::choice("k", i, 0, 1) ? 100 : 1) : at[sym::choice("k", i, 3, 4)]; t.incrCountOf_tlenk(tl, k); t.incrCountOf_tlen(tl); c[P(tl, k)] += 1; m[tl] += 1; } }
HARNESS(h_counts) { static SegLenTable t; std::map<P, double> c; std::map<unsigned, double> m; if (sym::flag("used")) { t.incrCountOf_tlenk(1, 1); t.incrCountOf_tlen(1); t.clear(); } fill(t, c, m); same(t, c, m); COVER("counts"); }
HARNESS(h_roundtrip) { static SegLenTable t, u; std::map<P, double> c; std::map<unsigned, double> m; fill(t, c, m); std::ostringstream o; t.printSegmLengthTable(o); sym::putFile("seg", o.str()); u.incrCountOf_tlenk(3, 3); u.incrCountOf_tlen(3); CHECK(u.load_seglentable("seg") == THOT_OK, "written tables load"); same(u, c, m); std::ostringstream o2; u.printSegmLengthTable(o2); CHECK(o2.str() == o.str(), "loaded tables print as they were read"); COVER("round trip"); }
static std::string num(long v) { std::ostringstream o; o << v; return o.str(); }
// files with large counts, and with lengths outside the table, which are skipped
HARNESS(h_file) { static SegLenTable t; static const long big[] = {1, 999999, 1000001, 1234567, 12345678, 2147483647, 123456789012L}, len[] = {-2147483647L, -1, 0, 7, 100, 101, 2147483647L}; long a = big[sym::choice("a", 0, 6)], b = big[sym::choice("b", 0, 6)], x = len[sym::choice("x", 0, 6)], y = len[sym::choice("y", 0, 6)]; std::string f = "5 2 " + num(a) + "\n5 3 " + num(b) + "\n" + num(x) + " " + num(y) + " 4\n\n1 2\n"; sym::putFile("seg", f); t.load_seglentable("seg");
  CHECK(fabs((double)t.pk_tlen(5, 2) - (double)a / (double)(a + b)) < 1e-12, "probabilities are ratios of counts"); bool in = x >= 0 && x < (long)M && y >= 0 && y < (long)M; if (in) CHECK((double)t.pk_tlen((unsigned)x, (unsigned)y) == 1, "lengths within the limit are read"); std::ostringstream o; t.printSegmLengthTable(o); std::string e = "5 2 " + num(a) + "\n5 3 " + num(b) + "\n"; if (in) { std::string l = num(x) + " " + num(y) + " 4\n"; e = x < 5 ? l + e : e + l; } sym::putFile("seg2", o.str()); static SegLenTable u; u.load_seglentable("seg2"); for (unsigned k = 2; k <= 3; k++) CHECK((double)u.pk_tlen(5, k) == (double)t.pk_tlen(5, k), "printed counts are exact"); if (in) CHECK((double)u.pk_tlen((unsigned)x, (unsigned)y) == 1, "every count is printed"); COVER("file"); }
HARNESS(h_missing) { static SegLenTable t; CHECK(t.load_seglentable("nosuchfile") == THOT_OK, "a missing table is not an error"); unsigned a = at[sym::choice("a", 0, 8)], b = at[sym::choice("b", 0, 8)], c = at[sym::choice("c", 0, 8)], d = at[sym::choice("d", 0, 8)]; double p = (double)t.pk_tlen(a, b), q = (double)t.pk_tlen(c, d); bool in = a < M && b < M, jn = c < M && d < M; CHECK(in ? p > 0 : p == 0, "lengths beyond the limit have probability zero"); if (in && jn) CHECK(p == q, "without a table every length is equally likely"); COVER("missing"); }
// jumps: symmetric, depending on the distance only, a distribution at most one over positions
HARNESS(h_jumps) { TrgCutsTable t; double stop = 0.999; int f = sym::choice("file", 0, 3); static const char* const par[] = {"0.5\n", "0.25\n", "0.9\n"}; if (f) { sym::putFile("cuts", par[f - 1]); CHECK(t.load("cuts") == THOT_OK, "the model loads"); stop = f == 1 ? 0.5 : f == 2 ? 0.25 : 0.9; } else if (sym::flag("nofile")) CHECK(t.load("nosuchfile") == THOT_ERROR, "a missing model is reported"); int o = sym::choice("offset", -100, 100); double lp = (double)t.trgCutsLgProb(o), e = log(stop) + abs(o) * log(1 - stop); CHECK(fabs(lp - e) < 1e-4 * (1 + fabs(e)), "a jump has the probability of its length"); CHECK(lp == (double)t.trgCutsLgProb(-o), "both directions are alike"); CHECK(lp < 0, "probabilities are below one"); if (o) CHECK((double)t.trgCutsLgProb(o > 0 ? o + 1 : o - 1) < lp, "longer jumps are less likely"); COVER("jump"); }
HARNESS(h_srclen) { SrcSegmLenTable t; int f = sym::choice("file", 0, 3); if (f == 1) sym::putFile("sl", "Uniform\n"); if (f == 2) sym::putFile("sl", "Geometric 0.9\n"); if (f == 1 || f == 2) CHECK(!t.load("sl"), "the model loads"); if (f == 3) CHECK(t.load("nosuchfile"), "a missing model is reported"); unsigned n = sym::choice("n", 1, 12), from = sym::choice("from", 0, 11); ASSUME(from < n); double sum = 0; for (unsigned x = from + 1; x <= n; x++) { double lp = (double)t.srcSegmLenLgProb(x, from, n); CHECK(lp <= 0, "probabilities are at most one"); sum += exp(lp); if (f == 2) CHECK(fabs(lp - (log(0.9) + (x - from) * log(1 - 0.9))) < 1e-6, "geometric in the length"); } if (f != 2) CHECK(fabs(sum - 1) < 1e-5, "uniform lengths sum to one"); else CHECK(sum <= 1, "length probabilities sum to at most one"); CHECK((double)t.srcSegmLenLgProb(1, 0, 0) <= 0, "unknown sentence lengths are allowed"); COVER("source lengths"); }
HARNESS(h_trglen) { TrgSegmLenTable t; int f = sym::choice("file", 0, 4); double ratio = 1; if (f == 1) sym::putFile("tl", "Uniform\n"); if (f == 2) sym::putFile("tl", "Geometric 0.9\n"); if (f == 3) { sym::putFile("tl", "Poisson a b c d 2\nx a b c d 3\n"); ratio = 1.5; } if (f == 4) sym::putFile("tl", "Poisson 2\nx\n"); bool r = f ? t.load("tl") : false; CHECK(r == (f == 4), "damaged models are reported"); unsigned n = sym::choice("n", 1, 7), last = sym::choice("last", 1, 3), b = 0, e = 0; SentSegmentation s; int k = sym::choice("k", 0, 1); if (k) { b = sym::choice("b", 1, 7); e = sym::choice("e", 1, 7); ASSUME(b <= e && e <= n); s.push_back(std::make_pair((PositionIndex)b, (PositionIndex)e)); } unsigned from = sym::choice("from", 1, 7); ASSUME(from <= n && !(k && from >= b && from <= e)); unsigned lim = k && b > from ? b - 1 : n; double sum = 0;
  for (unsigned to = from; to <= lim; to++) { SentSegmentation q(s); q.push_back(std::make_pair((PositionIndex)from, (PositionIndex)to)); double lp = (double)t.trgSegmLenLgProb(k, q, n, last); unsigned len = to - from + 1; CHECK(lp <= 0, "probabilities are at most one"); sum += exp(lp); if (f == 2) CHECK(fabs(lp - (log(0.9) + (len > last ? len - last : last - len) * log(1 - 0.9))) < 1e-6, "geometric in the difference of lengths"); if (f >= 3) { double lam = ratio * last, x = -lam + len * log(lam); for (unsigned i = 1; i <= len; i++) x -= log((double)i); CHECK(fabs(lp - x) < 1e-6, "Poisson around the expected length"); } }
  if (f < 2 && lim == n) CHECK(fabs(sum - 1) < 1e-9, "uniform lengths sum to one"); if (f != 2) CHECK(sum <= 1 + 1e-9, "length probabilities sum to at most one"); COVER("target lengths"); }

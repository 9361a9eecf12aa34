// Phrase extraction from every link matrix within the sizes.
#include "sym.h"
#include "PhraseExtractionTable.h"
#include "PhraseExtractUtils.h"
#include <map>
#include <math.h>
#ifndef CELLS
#define CELLS 6
#endif
#ifndef SCELLS
#define SCELLS 6
#endif
typedef std::vector<std::string> SV;
struct Span { unsigned a, b, c, d; bool operator<(const Span& o) const { if (a != o.a) return a < o.a; if (b != o.b) return b < o.b; if (c != o.c) return c < o.c; return d < o.d; } };
struct In { unsigned I, J; int w[6][6]; SV ns, t; WordAligMatrix m; PhraseExtractParameters p; };
static void build(In& in) {
  in.ns.assign(1, "NULL"); in.t.clear(); for (unsigned i = 0; i < in.I; i++) in.ns.push_back(std::string("s") + char('1' + i)); for (unsigned j = 0; j < in.J; j++) in.t.push_back(std::string("t") + char('1' + j));
  in.m.init(in.I, in.J); for (unsigned i = 0; i < in.I; i++) for (unsigned j = 0; j < in.J; j++) in.m.setValue(i, j, in.w[i][j]); }
static void params(In& in, int maxl) { in.p.maxTrgPhraseLength = sym::choice("max", 1, maxl); in.p.countSpurious = sym::flag("spur"); in.p.constraintSrcLen = sym::flag("csl"); }
static void links(In& in, unsigned maxc, int weights) { in.I = sym::choice("I", 0, 4); in.J = sym::choice("J", 1, 4); ASSUME(in.I * in.J <= maxc); for (unsigned i = 0; i < in.I; i++) for (unsigned j = 0; j < in.J; j++) in.w[i][j] = sym::choice((std::string("l") + char('0' + i) + char('0' + j)).c_str(), 0, 1) * (weights ? 1 + (int)((i + j) & 1) : 1); build(in); }
// positions of a contiguous run of numbered words, false if it is none
static bool span(const SV& v, char k, unsigned n, unsigned& a, unsigned& b) { if (v.empty()) return false; for (size_t i = 0; i < v.size(); i++) { if (v[i].size() != 2 || v[i][0] != k) return false; unsigned x = (unsigned)(v[i][1] - '0'); if (x < 1 || x > n) return false; if (i == 0) a = x; else if (x != a + i) return false; } b = a + (unsigned)v.size() - 1; return true; }
static bool srcAl(const In& in, unsigned i) { for (unsigned j = 0; j < in.J; j++) if (in.w[i - 1][j]) return true; return false; }
static bool trgAl(const In& in, unsigned j) { for (unsigned i = 0; i < in.I; i++) if (in.w[i][j - 1]) return true; return false; }
static unsigned tlen(const In& in, unsigned c, unsigned d) { unsigned n = 0; for (unsigned j = c; j <= d; j++) n += in.p.countSpurious || trgAl(in, j); return n; }
static bool consistent(const In& in, const Span& s) { bool any = false; for (unsigned i = 1; i <= in.I; i++) for (unsigned j = 1; j <= in.J; j++) if (in.w[i - 1][j - 1]) { bool is = i >= s.a && i <= s.b, it = j >= s.c && j <= s.d; if (is != it) return false; if (is) any = true; } return any; }
static bool within(const In& in, const Span& s) { if (tlen(in, s.c, s.d) > (unsigned)in.p.maxTrgPhraseLength) return false; return !(in.p.constraintSrcLen && s.b - s.a + 1 > (unsigned)in.p.maxTrgPhraseLength); }
static bool collect(const In& in, const std::vector<PhrasePair>& v, std::map<Span, double>& out, bool checkd) {
  for (size_t k = 0; k < v.size(); k++) { Span s; bool ok = span(v[k].s_, 's', in.I, s.a, s.b) && span(v[k].t_, 't', in.J, s.c, s.d); if (checkd) CHECK(ok, "extracted phrases are runs of words of the sentences"); if (!ok) return false; if (checkd) CHECK(!out.count(s), "no phrase pair is extracted twice"); out[s] = v[k].weight; } return true; }
static void soundComplete(const In& in, std::map<Span, double>& got, const std::vector<PhrasePair>& v) {
  collect(in, v, got, true);
  for (std::map<Span, double>::iterator i = got.begin(); i != got.end(); ++i) { const Span& s = i->first; CHECK(consistent(in, s), "extracted pairs are consistent with the alignment"); CHECK(within(in, s), "extracted pairs respect the length limits");
    int n = 0, sum = 0; for (unsigned x = s.a; x <= s.b; x++) for (unsigned y = s.c; y <= s.d; y++) { sum += in.w[x - 1][y - 1]; n += in.w[x - 1][y - 1] != 0; } CHECK(fabs(i->second - (double)sum / n) < 1e-6, "the weight is the mean value of the links inside"); }
  for (unsigned a = 1; a <= in.I; a++) for (unsigned b = a; b <= in.I; b++) for (unsigned c = 1; c <= in.J; c++) for (unsigned d = c; d <= in.J; d++) { Span s = {a, b, c, d}; bool all = c == 1 && d == in.J; if (!consistent(in, s) || !within(in, s)) continue; if (!srcAl(in, a) || !srcAl(in, b)) continue; if (all && (a != 1 || b != in.I)) continue; CHECK(got.count(s), "consistent pairs bounded by aligned source words are extracted"); }
  COVER("extracted"); if (got.empty()) COVER("nothing extracted"); }
static PhraseExtractionTable* tab; // its 101x101 table is built once
#define TABLE() PhraseExtractionTable T; tab = &T
HARNESS(h_consistent) { TABLE(); In in; links(in, CELLS, 1); params(in, 3); std::vector<PhrasePair> v(1); tab->extractConsistentPhrases(in.p, in.ns, in.t, in.m, v); std::map<Span, double> g; soundComplete(in, g, v); }
// one table used for two sentence pairs in turn answers as a fresh one
HARNESS(h_reuse) { TABLE(); In in; links(in, 4, 0); in.p.maxTrgPhraseLength = 3; In o; o.I = 3; o.J = 3; int pat = sym::choice("pat", 0, 15); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o.w[i][j] = i == j ? pat & 1 : i == 2 - j ? (pat >> 1) & 1 : i < j ? (pat >> 2) & 1 : (pat >> 3) & 1; build(o);
  std::vector<PhrasePair> v; tab->extractConsistentPhrases(o.p, o.ns, o.t, o.m, v); tab->extractConsistentPhrases(in.p, in.ns, in.t, in.m, v); std::map<Span, double> g; soundComplete(in, g, v); COVER("reused"); }
// longer sentences: permutations of one-to-one links plus an extra link or an unaligned word
HARNESS(h_long) { TABLE(); In in; in.I = in.J = (unsigned)sym::choice("n", 4, 5); bool used[6] = {false}; for (unsigned i = 0; i < in.I; i++) for (unsigned j = 0; j < in.J; j++) in.w[i][j] = 0;
  int shape = sym::choice("shape", 0, 3); for (unsigned j = 0; j < in.J; j++) { int i = shape == 0 ? (int)j : shape == 1 ? (int)(in.J - 1 - j) : shape == 2 ? (int)(j ^ 1) : (int)((j + 2) % in.J); if (i >= (int)in.I) i = (int)j; in.w[i][j] = 1; (void)used; }
#ifndef BOTH
#define BOTH 0
#endif
  int u = sym::choice("none", 0, (int)in.J); if (u) for (unsigned i = 0; i < in.I; i++) in.w[i][u - 1] = 0; int x = BOTH || !u ? sym::choice("x", 0, (int)in.I) : 0, y = x ? sym::choice("y", 1, (int)in.J) : 0; if (x) in.w[x - 1][y - 1] ^= 1; build(in); params(in, 5);
  std::vector<PhrasePair> v; tab->extractConsistentPhrases(in.p, in.ns, in.t, in.m, v); std::map<Span, double> g; soundComplete(in, g, v); COVER("long"); }
HARNESS(h_monotone) { TABLE(); In in; links(in, 6, 0); in.p.monotone = true; in.p.maxTrgPhraseLength = 3; std::vector<PhrasePair> v; tab->extractConsistentPhrases(in.p, in.ns, in.t, in.m, v); std::map<Span, double> g, h; collect(in, v, g, true); in.p.monotone = false; tab->extractConsistentPhrases(in.p, in.ns, in.t, in.m, v); collect(in, v, h, true);
  for (std::map<Span, double>::iterator i = g.begin(); i != g.end(); ++i) CHECK(h.count(i->first), "monotone extraction gives a subset"); COVER("monotone"); }
// segmentation based extraction: weights are shares of the segmentations of the sentence pair into extracted pairs
static double segs(const In& in, const std::map<Span, double>& bp, unsigned a, unsigned mask, std::vector<Span>& cur, std::map<Span, double>& cnt) {
  if (a > in.I) { if (mask) return 0; for (size_t k = 0; k < cur.size(); k++) cnt[cur[k]] += 1; return 1; } double n = 0;
  for (std::map<Span, double>::const_iterator i = bp.begin(); i != bp.end(); ++i) { if (i->first.a != a) continue; unsigned m = 0; for (unsigned j = i->first.c; j <= i->first.d; j++) m |= 1u << j; if ((m & mask) != m) continue; cur.push_back(i->first); n += segs(in, bp, i->first.b + 1, mask & ~m, cur, cnt); cur.pop_back(); } return n; }
HARNESS(h_segm) { TABLE(); In in; links(in, SCELLS, 0); ASSUME(in.I > 0); in.p.maxTrgPhraseLength = sym::choice("max", 1, 3); std::vector<PhrasePair> v, w(2); tab->extractConsistentPhrases(in.p, in.ns, in.t, in.m, v); std::map<Span, double> bp, got, cnt; collect(in, v, bp, true); double ln = tab->segmBasedExtraction(in.p, in.ns, in.t, in.m, w); std::vector<Span> cur; unsigned mask = 0; for (unsigned j = 1; j <= in.J; j++) mask |= 1u << j; double n = segs(in, bp, 1, mask, cur, cnt);
  if (n == 0) { CHECK(w.empty(), "no pair comes from sentences without segmentation"); COVER("no segmentation"); return; }
  CHECK(fabs(exp(ln) - n) < 1e-3 * n, "the number of segmentations is exact"); collect(in, w, got, true); CHECK(got.size() == cnt.size(), "the pairs are those in some segmentation"); for (std::map<Span, double>::iterator i = cnt.begin(); i != cnt.end(); ++i) { CHECK(got.count(i->first), "every pair of a segmentation is returned"); CHECK(fabs(got[i->first] - i->second / n) < 1e-3, "a pair weighs its share of the segmentations"); } COVER("segmentations"); }
// too long sentences give nothing and do no harm
HARNESS(h_limit) { TABLE(); In in; in.I = in.J = 0; int which = sym::choice("which", 0, 1); unsigned I = which ? 1 : 101, J = which ? 101 : 1; in.ns.assign(I + 1, "s"); in.t.assign(J, "t"); in.m.init(I, J); in.m.set(I - 1, J - 1); std::vector<PhrasePair> v; PhraseExtractUtils::extractPhrasesFromPairPlusAlig(in.p, in.ns, in.t, in.m, v); CHECK(v.empty(), "sentences beyond the limit are skipped"); COVER("limit"); }

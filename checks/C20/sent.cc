// Sentence handler: pairs of files and added pairs, read in any order; printed files read back.
#include "sym.h"
#include <iostream>
#include "LightSentenceHandler.h"
#ifndef NP
#define NP 3
#endif
using sym::putFile;
typedef std::vector<std::string> SV; struct Pair { SV s, t; int c; };
static const char* W[] = {"a", "bb", "\xc3\xb1", "<s>"};
// sentences as they appear in files: blanks around and between the words
static SV sentence(int kind) { SV r; static const int len[] = {1, 2, 0, 3}; for (int i = 0; i < len[kind]; i++) r.push_back(W[(i + kind) % 4]); return r; }
static std::string line(const SV& s, int blanks) { std::string r; if (blanks & 1) r += "  "; for (size_t i = 0; i < s.size(); i++) r += (i ? blanks & 2 ? "   " : " " : "") + s[i]; if (blanks & 2) r += " "; return r; }
static void one(LightSentenceHandler& h, const std::vector<Pair>& r, unsigned n) { SV s(1, "old"), t(2, "old"); Count c = 77; int ret = h.nthSentPair(n, s, t, c); if (n >= r.size()) { CHECK(ret == THOT_ERROR, "positions after the last pair are an error"); return; } CHECK(ret == THOT_OK && s == r[n].s && t == r[n].t, "a position holds the words of its pair"); CHECK((float)c == r[n].c, "a position holds the count of its pair");
}
static int corpus(std::vector<Pair>& r, const char* pre, int n, bool counts, bool nl) { std::string s, t, c; for (int i = 0; i < n; i++) { Pair p; int k = i == 2 && NP < 4 ? 1 : sym::choice("k", i, 0, i ? 2 : 3); p.s = sentence(k); p.t = sentence((k + i + 1) % 4); p.c = counts ? (i == 1 ? 1234567 : i * 3) : 1; r.push_back(p); bool last = i == n - 1; s += line(p.s, i + k) + (last && !nl ? "" : "\n"); t += line(p.t, k) + (last && !nl ? "" : "\n"); c += std::to_string(p.c) + (last && !nl ? "" : "\n"); } putFile((std::string(pre) + ".s").c_str(), s); putFile((std::string(pre) + ".t").c_str(), t); putFile((std::string(pre) + ".c").c_str(), c); return n; }
// any order of reads and additions
HARNESS(h_access) {
  std::cerr.setstate(std::ios::failbit); LightSentenceHandler h; std::vector<Pair> r; std::pair<unsigned, unsigned> rg(9, 9); int n = sym::choice("n", 0, NP); bool counts = sym::choice("counts", 0, 1), nl = true;
  if (n) { corpus(r, "sh", n, counts, nl); CHECK(h.readSentencePairs("sh.s", "sh.t", counts ? "sh.c" : "", rg) == THOT_OK, "pairs of files are read"); CHECK(rg.first == 0 && rg.second == (unsigned)n - 1, "the range of the pairs read is reported"); }
  int m = sym::choice("m", 0, NP < 4 ? 1 : 2); if (NP < 4) m *= 2; for (int i = 0; i < m; i++) { Pair p; p.s = sentence(i + 1); p.t = sentence(3 - i); p.c = 5 + i; r.push_back(p); h.addSentPair(p.s, p.t, p.c, rg); CHECK(rg.first == r.size() - 1 && rg.second == rg.first, "an added pair comes last"); if (i == 0 && n) one(h, r, 0); }
  CHECK(h.numSentPairs() == r.size(), "every pair is counted"); for (int q = 0; q < NP; q++) one(h, r, sym::choice("q", q, 0, r.size())); 
  for (unsigned i = 0; i < r.size(); i++) { SV s, t; Count c = 0; CHECK(h.getSrcSent(i, s) == THOT_OK && s == r[i].s, "the source sentence of a position is its own"); CHECK(h.getTrgSent(i, t) == THOT_OK && t == r[i].t, "the target sentence of a position is its own"); CHECK(h.getCount(i, c) == THOT_OK && (float)c == r[i].c, "the count of a position is its own"); }
  if (n && m) COVER("files and added pairs"); COVER("access");
}
// printing and reading again changes nothing; reading replaces what was there
HARNESS(h_print) {
  std::cerr.setstate(std::ios::failbit); LightSentenceHandler h, g; std::vector<Pair> r, other; std::pair<unsigned, unsigned> rg; int n = sym::choice("n", 1, NP); corpus(r, "sp", n, true, sym::choice("nl", 0, 1) || r.empty()); CHECK(h.readSentencePairs("sp.s", "sp.t", "sp.c", rg) == THOT_OK, "pairs of files are read"); one(h, r, n - 1);
  if (sym::choice("add", 0, 1)) { Pair p; p.s = sentence(3); p.t = sentence(2); p.c = 16777215; r.push_back(p); h.addSentPair(p.s, p.t, p.c, rg); }
  Pair x; x.s = x.t = sentence(0); x.c = 2; g.addSentPair(x.s, x.t, x.c, rg); CHECK(h.printSentPairs("sq.s", "sq.t", "sq.c") == THOT_OK && g.readSentencePairs("sq.s", "sq.t", "sq.c", rg) == THOT_OK, "printed pairs are read"); CHECK(g.numSentPairs() == r.size() && rg.second == r.size() - 1, "printed pairs keep their number"); for (unsigned i = 0; i <= r.size(); i++) one(g, r, i); one(g, r, 0); for (unsigned i = 0; i < r.size(); i++) one(h, r, i);
  g.clear(); CHECK(g.numSentPairs() == 0, "clearing forgets the pairs"); one(g, other, 0); CHECK(h.readSentencePairs("missing", "sp.t", "", rg) == THOT_ERROR, "a missing file is an error"); COVER("print");
}
// files of different lengths
HARNESS(h_differ) { std::cerr.setstate(std::ios::failbit); LightSentenceHandler h; std::pair<unsigned, unsigned> rg; int a = sym::choice("a", 0, NP), b = sym::choice("b", 0, NP); std::string s, t; for (int i = 0; i < a; i++) s += "a\n"; for (int i = 0; i < b; i++) t += "b\n"; putFile("sd.s", s); putFile("sd.t", t); if (a > b) { CHECK(h.readSentencePairs("sd.s", "sd.t", "", rg) == THOT_ERROR, "a source sentence without target is an error"); COVER("differ"); } else { CHECK(h.readSentencePairs("sd.s", "sd.t", "", rg) == THOT_OK && h.numSentPairs() == (unsigned)a, "pairs end with the source file"); } }

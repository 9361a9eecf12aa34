// Word completion: candidate suffixes, their counts, the best of them alone and after a history.
#include "sym.h"
#include <math.h>
#include <iostream>
#include "IncrJelMerNgramLM.h"
#include "WordPredictor.h"
#include "LangModelFeat.h"
#include "PhrScoreInfo.h"
#ifndef NS
#define NS 3
#define NW 6
#endif
using sym::putFile;
typedef std::vector<std::string> SV; typedef std::map<std::string, int> Ref;
static const char* W[] = {"a", "ab", "abc", "b", "abd", "\xc3\xb1", "ba", "ac"};
static const char* Q[] = {"", "a", "ab", "abc", "abcd", "b", "c", "\xc3", "bb"};
// candidates of a prefix: every stored word that extends it, best count first
static void query(WordPredictor& wp, const Ref& ref, const std::string& q) {
  std::map<int, std::set<std::string> > cand; for (auto& p : ref) if (p.first.compare(0, q.size(), q) == 0) cand[p.second].insert(p.first.substr(q.size()));
  WordPredictor::SuffixList sl; wp.getSuffixList(q, sl); size_t k = 0; CHECK(sl.size() == cand.size(), "there is a candidate for every count");
  for (auto& x : sl) { int c = (int)(float)x.first; CHECK(cand.count(c) && cand[c].count(x.second), "a candidate completes the prefix to a word of that count"); k++; }
  std::pair<Count, std::string> b = wp.getBestSuffix(q); if (cand.empty()) CHECK((float)b.first == 0 && b.second.empty(), "nothing is proposed when no word extends the prefix"); else CHECK((float)b.first == cand.rbegin()->first && cand.rbegin()->second.count(b.second), "the best completion is among the most frequent ones");
}
static void queries(WordPredictor& wp, const Ref& ref) { for (const char* q : Q) query(wp, ref, q); }
static void add(Ref& ref, const std::vector<SV>& s) { for (auto& x : s) for (auto& w : x) ref[w]++; }
HARNESS(h_add) {
  WordPredictor wp; Ref ref; int n = sym::choice("n", 1, NS); for (int i = 0; i < n; i++) { SV s; int k = i < 2 ? sym::choice("k", i, 0, i ? 1 : 2) : 1; for (int j = 0; j < k; j++) s.push_back(W[sym::choice(j ? "v" : "w", i, 0, NW - 1)]); wp.addSentence(s); add(ref, std::vector<SV>(1, s)); }
  queries(wp, ref); if (ref.size() > 1) COVER("several words"); wp.clear(); queries(wp, Ref()); wp.addSentence(SV(1, "ab")); ref.clear(); ref["ab"] = 1; queries(wp, ref); COVER("add");
}
// a file of sentences, all counted; with additional information, sentences added afterwards count in batches
HARNESS(h_load) {
  std::cerr.setstate(std::ios::failbit); WordPredictor wp; int ret = sym::choice("retain", 0, 4), n = sym::choice("n", 0, NS); std::string text; std::vector<SV> all, batch; for (int i = 0; i < n; i++) { SV s; int k = i == 1 ? sym::choice("k", 0, 2) : 1; for (int j = 0; j < k; j++) { s.push_back(W[sym::choice(j ? "v" : "w", i, 0, 3)]); text += (j ? "  " : " ") + s.back(); } text += "\n"; all.push_back(s); }
  const char* name = ret == 4 ? "wq" : "wp"; putFile(name, text); putFile("wp.addinfo", std::string(1, char(48 + ret)) + "\n");
  Ref ref; CHECK(wp.load(name) == THOT_OK, "a file of sentences is loaded"); add(ref, all); queries(wp, ref);
  for (int i = 0; i < 4; i++) { SV s(1, W[(i * i) % 3]); wp.addSentence(s); batch.push_back(s); if (ret == 4 || batch.size() == (size_t)ret) { add(ref, batch); batch.clear(); } queries(wp, ref); } COVER("load");
}
// given a history, the candidate that the language model finds most probable
HARNESS(h_hist) {
  IncrJelMerNgramLM lm; lm.setNgramOrder(2); lm.weights.assign(2, 0.5); WordIndex id[4]; for (int i = 0; i < 4; i++) id[i] = lm.addSymbol(W[i]); for (int i = 0; i < 4; i++) { lm.incrCountsOfNgram(id[i], std::vector<WordIndex>(), 1 + i); int c = sym::choice("c", i, 0, 2); if (c) lm.incrCountsOfNgram(id[i], std::vector<WordIndex>(1, id[3]), c); }
  WordPredictor wp; Ref ref; int f[] = {3, 2, 1, 5}; int r = sym::choice("rot", 0, 2); for (int i = 0; i < 4; i++) for (int k = 0; k < f[i == 3 ? 3 : (i + r) % 3]; k++) { wp.addSentence(SV(1, W[i])); ref[W[i]]++; }
  LangModelFeat<PhrScoreInfo> feat; feat.link_lm(&lm); feat.link_wp(&wp); SV h(1, W[3]); if (sym::choice("hist", 0, 1)) h.insert(h.begin(), "zz"); int qi = sym::choice("q", 1, 5); std::string q = Q[qi]; std::pair<Count, std::string> b = feat.getBestSuffixGivenHist(h, q); CHECK(feat.getBestSuffix(q).second == wp.getBestSuffix(q).second, "the feature asks the word predictor");
  double best = -1e30; int cands = 0; for (auto& p : ref) if (p.first.compare(0, q.size(), q) == 0) { cands++; double lp = (double)lm.getNgramLgProb(lm.stringToWordIndex(p.first), std::vector<WordIndex>(1, id[3])); if (lp > best) best = lp; }
  if (!cands) CHECK((float)b.first == 0 && b.second.empty(), "nothing is proposed when no word extends the prefix"); else { std::string w = q + b.second; CHECK(ref.count(w) && ref[w] == (int)(float)b.first, "the completion after a history is a stored word with its count"); CHECK((double)lm.getNgramLgProb(lm.stringToWordIndex(w), std::vector<WordIndex>(1, id[3])) == best, "the completion after a history is the most probable one"); COVER("history"); }
}

// Interpolated n-gram language models: probabilities, states, sentences, files, vocabulary.
#include "sym.h"
#include <math.h>
#include <iostream>
#include "IncrJelMerNgramLM.h"
#include "IncrJelMerLevelDbNgramLM.h"
#include "WordPenaltyModel.h"
#ifndef NB
#define NB 3
#endif
using sym::putFile;
typedef std::vector<WordIndex> Ph;
typedef std::vector<std::string> SV;
static bool near(double a, double b) { return fabs(a - b) <= 1e-5 * (1 + fabs(b)); }
static Ph hist(int n, const WordIndex* w) { return Ph(w, w + n); }
// reference counts: history -> word -> count
struct Counts { std::map<Ph, std::map<WordIndex, int> > c; int n(const Ph& h) { int r = 0; for (auto& x : c[h]) r += x.second; return r; } int at(const Ph& h, WordIndex w) { return c[h].count(w) ? c[h][w] : 0; } };
template <class LM> static void put(LM& lm, Counts& r, const Ph& h, WordIndex w, int c) { if (c == 0) return; lm.incrCountsOfNgram(w, h, c); r.c[h][w] += c; }
static double interp(Counts& r, const std::vector<double>& wt, Ph h, WordIndex w, double v) { double lower; if (h.empty()) lower = 1 / v; else lower = interp(r, wt, Ph(h.begin() + 1, h.end()), w, v); int n = r.n(h); double q = n ? (double)r.at(h, w) / n : 0; return wt[h.size()] * q + (1 - wt[h.size()]) * lower; }
// one history counted fully, with power-of-two totals so that every sum is exact; weights in eighths
HARNESS(h_norm) {
  IncrJelMerNgramLM lm; Counts r; for (const char* s : {"a", "b", "c", "d"}) lm.addSymbol(s); WordIndex A = lm.stringToWordIndex("a"), B = lm.stringToWordIndex("b"); bool f; WordIndex E = lm.getEosId(f), S = lm.getBosId(f); CHECK(lm.getVocabSize() == 8, "the vocabulary has the words and the special symbols");
  lm.setNgramOrder(3); lm.weights.clear(); for (int i = 0; i < 3; i++) lm.weights.push_back(i == 2 && NB < 4 ? 0.5 : sym::fix("w", i, 0, 8, 3));
  int u = sym::choice("u", 0, 4), v = sym::choice("v", 0, 4), x = sym::choice("x", 0, 2); WordIndex w[] = {A, B, E}; Ph h0, h1(1, A), h2; h2.push_back(S); h2.push_back(A); if (sym::choice("bb", 0, 1)) h2[0] = B;
  for (int i = 0; i < 3; i++) { put(lm, r, h0, w[i], u == 0 ? 0 : u == 4 ? (i ? 1 : 2) : i == u - 1 ? 2 : 1); put(lm, r, h1, w[i], v == 0 ? 0 : v == 4 ? (i == 2) : i == v - 1 ? 2 : 1); put(lm, r, h2, w[i], x == 0 ? 0 : i == x); }
  Ph hs[] = {h0, h1, h2, Ph(1, B), hist(2, (WordIndex[]){S, S}), hist(2, (WordIndex[]){S, A}), hist(2, (WordIndex[]){B, B})};
  for (const Ph& h : hs) { double sum = 0; bool full = true; Ph e = h; while (e.size() > 1 && e[0] == S && e[1] == S) e.erase(e.begin()); for (size_t k = 0; k <= e.size(); k++) if (!r.n(Ph(e.begin() + k, e.end()))) full = false;
    for (WordIndex t = 0; t < 8; t++) { double p = (double)lm.pTrgGivenSrc(h, t); CHECKV(sym::both(p >= 0, p <= 1), "probabilities lie between zero and one"); CHECKV(p == interp(r, lm.weights, e, t, 8), "probabilities interpolate all orders"); sum += p; }
    if (full) CHECKV(sum == 1, "probabilities of the next word sum to one"); CHECKV(sum <= 1, "probabilities of the next word sum to at most one"); if (full) COVER("all orders seen"); }
  COVER("norm");
}
// buckets: the weight used is that of the order and of the frequency of the history
HARNESS(h_buckets) {
  IncrJelMerNgramLM lm; lm.addSymbol("a"); lm.setNgramOrder(2); lm.numBucketsPerOrder = sym::choice("nb", 1, 3); lm.sizeOfBucket = sym::choice("sz", 1, 2); lm.weights.clear(); for (unsigned i = 0; i < 2 * lm.numBucketsPerOrder; i++) lm.weights.push_back((1 + i) / 16.0);
  WordIndex A = lm.stringToWordIndex("a"); Counts r; int c0 = sym::choice("c0", 0, 5), c1 = sym::choice("c1", 0, 5); put(lm, r, Ph(), A, c0); put(lm, r, Ph(1, A), A, c1); put(lm, r, Ph(1, A), UNK_SYMBOL, 1);
  double wt[2]; for (int o = 0; o < 2; o++) { int n = r.n(Ph(o, A)); unsigned b = n / (int)lm.sizeOfBucket; if (b >= lm.numBucketsPerOrder) b = lm.numBucketsPerOrder - 1; wt[o] = lm.weights[o * lm.numBucketsPerOrder + b]; }
  CHECK(near((double)lm.pTrgGivenSrc(Ph(1, A), A), interp(r, std::vector<double>(wt, wt + 2), Ph(1, A), A, lm.getVocabSize())), "bucketed weights depend on order and history frequency"); COVER("buckets");
}
// scores through states equal scores from explicit histories; sentences and corpora add up their words
template <class LM> static void fill(LM& lm, Counts& r, int order) { lm.setNgramOrder(order); lm.weights.assign(3, 0.5); WordIndex A = lm.addSymbol("a"), B = lm.addSymbol("b"); bool f; WordIndex S = lm.getBosId(f), E = lm.getEosId(f); WordIndex w[] = {A, B, E};
  int z = sym::choice("z", 0, 3); for (int i = 0; i < 3; i++) { put(lm, r, Ph(), w[i], 1 + i); put(lm, r, Ph(1, A), w[i], z == 0 ? 0 : i == z - 1 ? 3 : 1); put(lm, r, Ph(1, S), w[i], i != 2); put(lm, r, hist(2, (WordIndex[]){S, A}), w[i], i * (z & 1)); put(lm, r, hist(2, (WordIndex[]){A, B}), w[i], 2 - i + z); } }
static SV sentence(const char* n, int len) { static const char* w[] = {"a", "b", "zz"}; SV r; for (int i = 0; i < len; i++) r.push_back(w[sym::choice(n, i, 0, 2)]); return r; }
// sum of log-probabilities of a sentence under the reference interpolation
template <class LM> static double score(LM& lm, Counts& r, const SV& s) { int order = lm.getNgramOrder(); bool f; Ph h(order - 1, lm.getBosId(f)); double lp = 0; for (size_t i = 0; i <= s.size(); i++) { WordIndex w = i < s.size() ? lm.stringToWordIndex(s[i]) : lm.getEosId(f); Ph e = h; while (e.size() > 1 && e[0] == lm.getBosId(f) && e[1] == e[0]) e.erase(e.begin()); lp += log(interp(r, lm.weights, e, w, lm.getVocabSize())); h.push_back(w); h.erase(h.begin()); } return lp; }
HARNESS(h_states) {
  IncrJelMerNgramLM lm; Counts r; int order = sym::choice("order", 1, 3); fill(lm, r, order); SV s = sentence("s", sym::choice("n", 0, NB)); bool f; CHECK(lm.getNgramOrder() == (unsigned)order, "the order is the one set");
  Ph st, h(order - 1, lm.getBosId(f)); lm.getStateForBeginOfSentence(st); CHECK(st == h, "the initial state is a history of sentence beginnings"); double total = 0;
  for (size_t i = 0; i <= s.size(); i++) { bool end = i == s.size(); WordIndex w = end ? lm.getEosId(f) : lm.stringToWordIndex(s[i]); Ph st2 = st; lm.addNextWordToState(w, st2); double p = end ? (double)lm.getLgProbEnd(h) : (double)lm.getNgramLgProb(w, h), q = end ? (double)lm.getLgProbEndGivenState(st) : s[i] == "a" ? (double)lm.getNgramLgProbGivenStateStr(s[i], st) : (double)lm.getNgramLgProbGivenState(w, st); CHECK(p == q, "scores given a state equal scores given its history"); h.push_back(w); h.erase(h.begin()); CHECK(st == h && st2 == h, "the next state drops the oldest word and adds the new one"); total += p; }
  CHECK(near((double)lm.getSentenceLog10ProbStr(s) * M_LN10, total), "a sentence scores the sum of its words and its end"); CHECK(near(total, score(lm, r, s)), "sentence scores follow the interpolated counts"); COVER("states");
}
HARNESS(h_perplexity) {
  IncrJelMerNgramLM lm; Counts r; fill(lm, r, 2); int n = sym::choice("n", 1, NB); std::string text; double lp = 0; unsigned sents = 0, words = 0; for (int i = 0; i < n; i++) { SV s = sentence(i ? i > 1 ? "t" : "s" : "r", sym::choice("k", i, 0, i > (NB > 3) ? 1 : 2)); for (size_t k = 0; k < s.size(); k++) text += (k ? " " : "") + s[k]; text += "\n"; if (s.empty()) continue; sents++; words += s.size(); lp += score(lm, r, s); }
  ASSUME(sents > 0); putFile("corpus", text); unsigned ns = 9, nw = 9; LgProb tot; double perp; CHECK(lm.perplexity("corpus", ns, nw, tot, perp) == THOT_OK, "a corpus is scored"); CHECK(nw == words, "the words of a corpus are counted"); CHECK(ns == sents, "the sentences of a corpus are counted"); CHECK(near((double)tot * M_LN10, lp), "a corpus scores the sum of its sentences"); CHECK(near(log(perp), -lp / (words + sents)), "perplexity is the inverse geometric mean of the word probabilities"); COVER("perplexity");
}
// n-gram files: what is listed is counted, blank and incomplete lines are not; printing and loading again changes nothing
static std::string num(int i) { return std::string(1, char('0' + i)); }
HARNESS(h_load) {
  std::cerr.setstate(std::ios::failbit); static const char* g[] = {"a", "b", "a a", "b a", "a a b", "<s> c c"}; std::map<std::string, std::pair<int, int> > ref; std::string text; unsigned order = 0; int n = sym::choice("n", 1, NB);
  for (int i = 0; i < n; i++) { int k = sym::choice("g", i, 0, 7); if (k == 6) { text += "\n"; continue; } if (k == 7) { text += "a\n"; continue; } int c = 1 + i; text += std::string(g[k]) + " " + num(c + 2) + " " + num(c) + "\n"; ref[g[k]] = std::make_pair(c + 2, c); unsigned o = k < 2 ? 1 : k < 4 ? 2 : 3; if (o > order) order = o; }
  putFile("lm", text); putFile("lm.weights", "3 1 0 0.25 0.5 0.75\n"); IncrJelMerNgramLM lm, lm2, *m = &lm; CHECK(lm.load("lm") == THOT_OK, "a model file is loaded");
  for (int round = 0; round < 2; round++) { CHECK(m->getNgramOrder() == (order ? order : 3), "the order is that of the longest n-gram"); CHECK(m->weights.size() == 3 && m->weights[0] == 0.25 && m->weights[1] == 0.5 && m->weights[2] == 0.75 && m->numBucketsPerOrder == 1, "weights are loaded");
    for (const char* k : g) { SV w; std::string cur; for (const char* p = k;; p++) { if (*p == ' ' || !*p) { w.push_back(cur); cur.clear(); if (!*p) break; } else cur += *p; } std::string t = w.back(); w.pop_back(); bool in = ref.count(k); CHECK((float)m->cNgramStr(t, w) == (in ? ref[k].second : 0), "an n-gram has the count of its last line"); }
    if (ref.count("a a b")) CHECK((float)m->cHistStr(SV(2, "a")) == ref["a a b"].first, "a history has the count of its line"); if (ref.count("<s> c c")) { SV h; h.push_back("<s>"); h.push_back("c"); CHECK((float)m->cHistStr(h) == ref["<s> c c"].first, "a history has the count of its line"); }
    if (m == &lm) { CHECK(lm.print("lm2") == THOT_OK && lm2.load("lm2") == THOT_OK, "a printed model is loaded"); m = &lm2; } }
  CHECK(lm.getVocabSize() == lm2.getVocabSize(), "a printed model keeps its vocabulary"); WordIndex A = lm.stringToWordIndex("a"), A2 = lm2.stringToWordIndex("a"); for (unsigned k = 0; k < (order ? order : 3); k++) CHECK((double)lm.getNgramLgProb(A, Ph(k, A)) == (double)lm2.getNgramLgProb(A2, Ph(k, A2)), "a printed model scores as the original"); COVER("load");
}
// vocabulary of the model: standard symbols keep their codes, words get codes of their own, files restore it
HARNESS(h_vocab) {
  std::cerr.setstate(std::ios::failbit); IncrJelMerNgramLM lm; bool f; static const char* w[] = {"<s>", "</s>", "<unk>", "x", "y"}; std::map<std::string, WordIndex> ref; int n = sym::choice("n", 0, NB);
  for (int i = 0; i < n; i++) { int op = sym::choice("op", i, 0, i ? 6 : 5); if (op == 6) { lm.clearVocab(); ref.clear(); } else if (op == 5) { putFile("voc", ""); CHECK(lm.printVocab("voc") == THOT_OK, "the vocabulary is printed"); lm.clearVocab(); CHECK(lm.loadVocab("voc") == THOT_OK, "the vocabulary is loaded"); } else { WordIndex c = lm.addSymbol(w[op]); if (ref.count(w[op])) CHECK(ref[w[op]] == c, "a word keeps its code"); ref[w[op]] = c; } }
  CHECK(lm.getBosId(f) == S_BEGIN && f && lm.getEosId(f) == S_END && f, "sentence limits have their codes"); CHECK(lm.stringToWordIndex("never") == UNK_SYMBOL && !lm.existSymbol("never"), "unknown words get the unknown code"); ref["<s>"] = S_BEGIN; ref["</s>"] = S_END; ref["<unk>"] = UNK_SYMBOL;
  for (auto& p : ref) { CHECK(lm.existSymbol(p.first) && lm.stringToWordIndex(p.first) == p.second && lm.wordIndexToString(p.second) == p.first, "words and codes correspond"); for (auto& q : ref) CHECK(p.first == q.first || p.second != q.second, "distinct words have distinct codes"); }
  CHECK(lm.getVocabSize() == ref.size() + 1, "the vocabulary counts each word once"); COVER("vocab");
}
// the LevelDB model scores as the in-memory one
HARNESS(h_ldb) {
  std::cerr.setstate(std::ios::failbit); IncrJelMerNgramLM lm; Counts r; lm.setNgramOrder(3); lm.weights.assign(3, 0.5); lm.addSymbol("a"); lm.addSymbol("b"); bool ff; int k = sym::choice("k", 1, NB - 1);
  for (int i = 0; i < k; i++) { SV s = sentence(i ? i > 1 ? "t" : "s" : "r", sym::choice("len", i, 1, 2)); Ph e(1, lm.getBosId(ff)); for (auto& x : s) e.push_back(lm.addSymbol(x)); e.push_back(lm.getEosId(ff)); for (size_t j = 1; j < e.size(); j++) for (size_t n = 0; n <= 2 && n <= j; n++) put(lm, r, Ph(e.begin() + (j - n), e.begin() + j), e[j], 1); }
  { LevelDbNgramTable t; t.init("lmdb"); for (auto& h : r.c) for (auto& w : h.second) if (w.second) t.addSrcTrgInfo(h.first, w.first, w.second); for (auto& h : r.c) if (h.first.size() != 1 || !r.c[Ph()].count(h.first[0])) t.addSrcInfo(h.first, r.n(h.first)); }
  lm.printVocab("lmdb.ldb_vcb"); lm.printWeights("lmdb"); IncrJelMerLevelDbNgramLM db; CHECK(db.load("lmdb") == THOT_OK, "a LevelDB model is loaded"); CHECK(db.getNgramOrder() == 3 && db.getVocabSize() == lm.getVocabSize(), "order and vocabulary are those stored"); 
  bool f; WordIndex A = lm.stringToWordIndex("a"), B = lm.stringToWordIndex("b"), S = lm.getBosId(f), w[] = {A, B, S, lm.getEosId(f), UNK_SYMBOL}; Ph h = hist(2, (WordIndex[]){w[sym::choice("h", 0, 2)], w[sym::choice("h", 1, 0, 2)]}); for (size_t k = 0; k <= 2; k++) { Ph e(h.begin() + k, h.end()); CHECK((double)db.cHist(e) == (double)lm.cHist(e), "a LevelDB model counts histories as the in-memory model"); }
  for (WordIndex t : w) if (t != S) CHECK((double)db.getNgramLgProb(t, h) == (double)lm.getNgramLgProb(t, h), "a LevelDB model scores as the in-memory model"); ((LevelDbNgramTable*)db.tablePtr)->drop(); COVER("ldb");
}
HARNESS(h_penalty) { WordPenaltyModel m; int n = sym::choice("n", 0, 160); double lp = (double)m.wordPenaltyScore(n); CHECK(near(lp, log(0.7) + n * log(0.3)), "sentence lengths are geometrically distributed"); CHECK((double)m.sumWordPenaltyScore(n) >= lp && (double)m.sumWordPenaltyScore(n) >= (double)m.sumWordPenaltyScore(n + 1), "the score of at least n words covers that of n words"); COVER("penalty"); }

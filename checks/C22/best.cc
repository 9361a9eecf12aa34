// Best alignments of the single-word models: validity, score, optimality.
#include "sym.h"
#include <vector>
#include <string>
#include <math.h>
#include "IncrHmmAligModel.h"
#include "IncrHmmP0AligModel.h"
#include "SmoothedIncrIbm1AligModel.h"
#include "SmoothedIncrIbm2AligModel.h"
using namespace std;
#ifndef LV
#define LV 127
#endif
static double EPS = 0; // rounding only outside the engine: there the arithmetic is exact
#define TOLERANCE EPS = __sym_vm() ? 0 : 0.001
static vector<WordIndex> words(int n, int first = 3) { vector<WordIndex> v; for (int i = 0; i < n; i++) v.push_back(first + i); return v; }

// the model with arbitrary parameters in place of those of its tables
struct SymHmm : public IncrHmmAligModel {
  vector<vector<double> > lex, al;
  LgProb logpts(WordIndex s, WordIndex t) { return LgProb(lex[s < 3 ? 0 : s - 2][t - 3]); }
  LgProb logaProb(PositionIndex ip, PositionIndex slen, PositionIndex i) { return isValidAlig(ip, slen, i) ? LgProb(al[ip][i]) : LgProb(SMALL_LG_NUM); }
};
// scores of all state sequences
template <class F> static void sequences(int states, int tlen, F f) { vector<int> st(tlen, 1); for (;;) { f(st); int k = tlen - 1; while (k >= 0 && ++st[k] > states) st[k--] = 1; if (k < 0) return; } }

static void viterbi(int sl, int tl, bool zero) {
  SymHmm m; double l, a; char nm[32];
  m.lex.assign(sl + 1, vector<double>(tl, 0)); m.al.assign(2 * sl + 1, vector<double>(2 * sl + 1, 0));
  for (int i = 0; i <= sl; i++) for (int j = 0; j < tl; j++) { sprintf(nm, "t%d%d", i, j);
      if (zero) { l = sym::choice(nm, 0, 2); l = l == 0 ? SMALL_LG_NUM : -l; } else l = sym::fix(nm, -LV, 0, 2); m.lex[i][j] = l; }
  for (int p = 0; p <= 2 * sl; p++) for (int i = 1; i <= 2 * sl; i++) if (m.isValidAlig(p, sl, i)) { sprintf(nm, "a%d%d", p, i); a = zero ? -1.0 - ((p * 3 + i) % 4) * 0.25 : sym::fix(nm, -LV, 0, 2); m.al[p][i] = a; }
  vector<WordIndex> s = words(sl), t = words(tl); WordAligMatrix wm;
  sym::abslog(10);
  m.sentLengthModel.numSents = 1; m.sentLengthModel.tlenSum = 4;
  TOLERANCE; double slm = (double)m.sentLenLgProb(sl, tl), score = (double)m.obtainBestAlignment(s, t, wm);
  vector<PositionIndex> best; bool one = wm.getAligVec(best);
  CHECK(one && (int)best.size() == tl, "at most one source position per target word");
  if (!one || (int)best.size() != tl) return;
  for (int j = 0; j < tl; j++) CHECK(best[j] <= (unsigned)sl, "positions lie in the source sentence");
  int same = 0;
  sequences(2 * sl, tl, [&](const vector<int>& st) {
    double v = 0; int p = 0; bool ok = true, rep = true;
    for (int j = 0; j < tl; j++) { if (!m.isValidAlig(p, sl, st[j])) ok = false; v = v + m.al[p][st[j]] + m.lex[st[j] > sl ? 0 : st[j]][j]; p = st[j]; if ((st[j] > sl ? 0u : (unsigned)st[j]) != best[j]) rep = false; }
    if (!ok) return; v = slm + v;
    CHECKV(score + EPS >= v, "no alignment scores higher");
    if (rep) same = sym::either(same, sym::both(score + EPS >= v, score <= v + EPS));
  });
  CHECKV(same, "the score is that of the reported alignment");
  COVER("viterbi"); for (int j = 0; j < tl; j++) if (best[j] == 0) COVER("null word aligned");
}
HARNESS(h_viterbi11) { viterbi(1, sym::choice("tl", 1, 3), false); }
HARNESS(h_viterbi21) { viterbi(2, 1, false); viterbi(3, 1, false); }
HARNESS(h_viterbi22) { viterbi(2, 2, false); }
HARNESS(h_viterbi14) { viterbi(1, 4, false); }
HARNESS(h_zero) { int sl = sym::choice("sl", 1, 2); viterbi(sl, sym::choice("tl", 1, sl == 1 ? 3 : 2), true); }

// the cache of alignment parameters carries over to the next sentence pair
HARNESS(h_cache) {
  SymHmm m; char nm[32]; m.lex.assign(3, vector<double>(2, 0)); m.al.assign(5, vector<double>(5, 0));
  for (int i = 0; i <= 2; i++) for (int j = 0; j < 2; j++) m.lex[i][j] = -1.0 - ((i * 2 + j) % 3) * 0.5;
  for (int p = 0; p <= 4; p++) for (int i = 1; i <= 4; i++) { sprintf(nm, "a%d%d", p, i); m.al[p][i] = (p + i) % 2 ? sym::fix(nm, -64, 0, 4) : -0.5 * ((p * 5 + i) % 4); }
  vector<vector<string> > unused; CachedHmmAligLgProb c;
  int l1 = sym::choice("l1", 1, 2), l2 = sym::choice("l2", 1, 2); WordAligMatrix w1, w2, w3;
  sym::abslog(10);
  double a = (double)m.obtainBestAlignmentCached(words(l1), words(1), c, w1); (void)a;
  double b = (double)m.obtainBestAlignmentCached(words(l2), words(sym::choice("tl", 1, 2)), c, w2);
  double d = (double)m.obtainBestAlignmentCached(words(l2), words(w2.get_J()), c, w3), e;
  WordAligMatrix w4; e = (double)m.obtainBestAlignment(words(l2), words(w2.get_J()), w4);
  CHECKV(b == e, "the score does not depend on the cache"); CHECKV(d == e, "a repeated alignment has the same score");
  CHECK(w2 == w4 && w3 == w4, "the alignment does not depend on the cache"); COVER("cache");
}

// ---- IBM 1 and 2: the tables hold arbitrary values
template <class M> static void fillLex(M& m, int sl, int tl, bool gaps) {
  char nm[32];
  for (int i = 0; i <= sl; i++) for (int j = 0; j < tl; j++) { sprintf(nm, "t%d%d", i, j); int g = gaps ? sym::choice((string("g") + nm).c_str(), 0, 2) : 0; WordIndex sw = i == 0 ? 0 : i + 2; if (g == 1) continue; if (g == 2) { m.incrLexTable.setLexNumDen(sw, j + 3, -30, 0); continue; } m.incrLexTable.setLexNumDen(i == 0 ? 0 : i + 2, j + 3, (float)sym::fix(nm, -127, 0, 3), 0); }
}
template <class M> static void report(M& m, int sl, int tl, bool sum) {
  m.sentLengthModel.numSents = 1; m.sentLengthModel.tlenSum = 4;
  TOLERANCE; vector<WordIndex> s = words(sl), t = words(tl); WordAligMatrix wm;
  double score = (double)m.obtainBestAlignment(s, t, wm);
  vector<PositionIndex> best; bool one = wm.getAligVec(best);
  CHECK(one && (int)best.size() == tl, "at most one source position per target word");
  if (!one || (int)best.size() != tl) return;
  for (int j = 0; j < tl; j++) { CHECK(best[j] <= (unsigned)sl, "positions lie in the source sentence"); if (best[j] == 0) COVER("null word aligned"); }
  double own = (double)m.calcLgProbForAlig(s, t, wm);
  CHECKV(sym::both(own + EPS >= score, own <= score + EPS), "the score is that of the reported alignment");
  sequences(sl + 1, tl, [&](const vector<int>& st) {
    vector<PositionIndex> av; for (int j = 0; j < tl; j++) av.push_back(st[j] - 1);
    WordAligMatrix w(sl, tl); w.putAligVec(av);
    CHECKV((double)m.calcLgProbForAlig(s, t, w) <= score + EPS, "no alignment scores higher"); });
  if (sum) { double all = (double)m.calcLgProb(s, t); CHECKV(all + EPS >= score, "the pair is at least as likely as its best alignment"); }
  COVER("best");
}
HARNESS(h_ibm1) { IncrIbm1AligModel m; int sl = sym::choice("sl", 1, 2), tl = sym::choice("tl", 1, sl == 1 ? 3 : 2); sym::abslog(12); fillLex(m, sl, tl, false); report(m, sl, tl, true); }
HARNESS(h_ibm1_gaps) { SmoothedIncrIbm1AligModel m; int sl = sym::choice("sl", 1, 2), tl = sym::choice("tl", 1, 3 - sl); sym::abslog(12); fillLex(m, sl, tl, true); report(m, sl, tl, false); }
static void fillAl(IncrIbm2AligModel& m, int sl, int tl, bool gaps) {
  char nm[32]; for (int j = 1; j <= tl; j++) { aSource as; as.j = j; as.slen = sl; as.tlen = tl; if (gaps && sym::choice((string("ga") + char('0' + j)).c_str(), 0, 1)) continue;
    for (int i = 0; i <= sl; i++) { sprintf(nm, "a%d%d", j, i); m.incrIbm2AligTable.setAligNumDen(as, i, (float)sym::fix(nm, -127, 0, 3), 0); } }
}
HARNESS(h_ibm2) { SmoothedIncrIbm2AligModel m; int sl = sym::choice("sl", 1, 2), tl = sym::choice("tl", 1, 2); sym::abslog(12); fillLex(m, sl, tl, false); fillAl(m, sl, tl, sym::choice("gaps", 0, 1)); report(m, sl, tl, false); }

// ---- the HMM models with their own tables
template <class M> static void hmmTables(M& m, int sl, int w) {
  // numerators of the positions following ip, as counts 0..2 with their sum as denominator
  for (int ip = 0; ip <= sl; ip++) { int c[8], sum = 0; for (int i = 1; i <= 2 * sl; i++) { c[i] = (i * 3 + ip * 5 + w) % 3; if (i > sl && (ip == 0 ? i != sl + 1 : i != ip + sl)) c[i] = 0; sum += c[i]; }
    if (!sum) { c[1] = 1; sum = 1; }
    aSourceHmm as; as.prev_i = ip; as.slen = sl; for (int i = 1; i <= 2 * sl; i++) if (c[i]) m.incrHmmAligTable.setAligNumDen(as, i, (float)log((double)c[i]), (float)log((double)sum)); }
}
template <class M> static void ownTables(M& m, bool nulls) {
  int sl = sym::choice("sl", 1, 2), tl = sym::choice("tl", 1, 4 - sl), w = sym::choice("w", 0, 2); hmmTables(m, sl, w); (void)nulls;
  for (int i = 0; i <= sl; i++) for (int j = 0; j < tl; j++) { int c = sym::choice("c", 0, 2); if (c) m.incrLexTable->setLexNumDen(i == 0 ? 0 : i + 2, j + 3, c == 1 ? -0.5f : -3.0f, 0); }
  for (int j = 0; j < tl; j++) m.addTrgSymbol(string(1, 'a' + j));
  m.sentLengthModel.numSents = 1; m.sentLengthModel.tlenSum = 4; EPS = 0.001;
  vector<WordIndex> s = words(sl), t = words(tl); WordAligMatrix wm; double slm = (double)m.sentLenLgProb(sl, tl), score = (double)m.obtainBestAlignment(s, t, wm);
  vector<PositionIndex> best; bool one = wm.getAligVec(best); CHECK(one && (int)best.size() == tl, "at most one source position per target word"); if (!one || (int)best.size() != tl) return;
  bool same = false; double total = 0;
  sequences(2 * sl, tl, [&](const vector<int>& st) { double v = slm; int p = 0; bool ok = true, rep = true;
    for (int j = 0; j < tl; j++) { if (!m.isValidAlig(p, sl, st[j])) ok = false; v += (double)m.logaProb(p, sl, st[j]) + (double)m.logpts(st[j] > sl ? 0 : s[st[j] - 1], t[j]); p = st[j]; if ((st[j] > sl ? 0u : (unsigned)st[j]) != best[j]) rep = false; }
    if (!ok) return; total += exp(v); CHECK(v <= score + EPS, "no alignment scores higher"); if (rep && fabs(v - score) <= EPS) same = true; });
  CHECK(same, "the score is that of the reported alignment");
  double all = (double)m.calcLgProb(s, t);
  CHECK(all >= score - EPS, "the pair is at least as likely as its best alignment");
  CHECK(fabs(all - log(total)) <= EPS, "the probability of the pair is the sum over its alignments");
  COVER("own tables");
}
HARNESS(h_hmm) { IncrHmmAligModel m; ownTables(m, true); }
HARNESS(h_hmmp0) { IncrHmmP0AligModel m; double p0[] = {0.1, 0.5, 0.01}; m.set_hmm_p0(p0[sym::choice("p0", 0, 2)]); ownTables(m, false); }
// from every state the transition probabilities add up to one
HARNESS(h_norm) {
  int which = sym::choice("model", 0, 1), sl = sym::choice("slen", 1, 3), w = sym::choice("w", 0, 2); double fs[] = {0.3, 0.5, 0.001}; double f = fs[sym::choice("f", 0, 2)];
  IncrHmmAligModel m1; IncrHmmP0AligModel m2; _incrHmmAligModel& m = which ? (_incrHmmAligModel&)m2 : (_incrHmmAligModel&)m1; m2.set_hmm_p0(0.2); m.setAlSmIntFactor(f);
  for (int ip = 0; ip <= sl; ip++) { int c[8], sum = 0; aSourceHmm as; as.prev_i = ip; as.slen = sl;
    for (int i = 1; i <= 2 * sl; i++) { c[i] = (i * 3 + ip * 5 + w) % 3 + (i == 1); if (i > sl && (which || (ip == 0 ? i != sl + 1 : i != ip + sl))) c[i] = 0; sum += c[i]; }
    for (int i = 1; i <= 2 * sl; i++) if (c[i]) m.incrHmmAligTable.setAligNumDen(as, i, (float)log((double)c[i]), (float)log((double)sum)); }
  for (int ip = 0; ip <= 2 * sl; ip++) { double t = 0; for (int i = 1; i <= 2 * sl; i++) if (m.isValidAlig(ip, sl, i)) t += exp((double)m.logaProb(ip, sl, i));
    if (ip == 0 && !which) { CHECK(t > 0, "initial positions have probability"); continue; }
    CHECK(fabs(t - 1) < 0.0001, "transition probabilities add up to one"); }
  COVER("norm");
}

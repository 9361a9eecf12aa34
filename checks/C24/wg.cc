// Word graphs: every small topologically ordered graph, arc scores symbolic. The reference
// enumerates the paths of the (concrete) shape and works on their symbolic score sums.
#include "sym.h"
#include "WordGraph.h"
#include "WgHandler.h"
#include <algorithm>
#include <math.h>
#ifndef NA
#define NA 4
#endif
#ifndef NS
#define NS 4
#endif
typedef std::vector<int> Path; typedef std::set<WordGraphArcId> Ex;
struct Shape { int n; std::vector<int> from, to; std::vector<bool> fin; std::vector<double> scr; double init; };
static const char* const wname[] = {"a", "b", "c", "d", "e", "f"};
static Shape shape(int na, bool sinkFinals, int hi = 4) { // arcs sorted by the state they leave; the largest graphs have fewer states
  Shape s; s.n = NS; int last = 0, m = sym::choice("arcs", 1, na); int top = m == NA ? NS - 2 : NS - 1; for (int k = 0; k < m; k++) { int f = sym::choice("from", k, 0, NS - 2); int t = sym::choice("to", k, 1, NS - 1); ASSUME(f >= last && t > f && t <= top); last = f; s.from.push_back(f); s.to.push_back(t); }
  s.fin.assign(NS, false); int any = 0; for (int i = 1; i < NS; i++) { bool in = false, out = false; for (int k = 0; k < m; k++) { in |= s.to[k] == i; out |= s.from[k] == i; } if (!in || (sinkFinals && out)) continue; s.fin[i] = sym::choice("final", i, 0, 1); any |= s.fin[i]; } ASSUME(any);
  for (int k = 0; k < m; k++) s.scr.push_back(sym::fix("score", k, -hi, hi, 0)); s.init = sym::fix("init", -1, 1, 0); return s; }
static std::vector<std::string> wordsOf(int k, int n = 1) { std::vector<std::string> v; for (int i = 0; i < n; i++) v.push_back(wname[k]); return v; }
static void build(WordGraph& g, const Shape& s) { for (size_t k = 0; k < s.from.size(); k++) g.addArc(s.from[k], s.to[k], wordsOf((int)k), s.scr[k]); for (int i = 0; i < s.n; i++) if (s.fin[i]) g.addFinalState(i); g.setInitialStateScore(s.init); }
static void walk(const Shape& s, int st, Path& cur, std::vector<Path>& out, const std::vector<bool>& dead) { if (s.fin[st]) out.push_back(cur); for (size_t k = 0; k < s.from.size(); k++) if (s.from[k] == st && !dead[k]) { cur.push_back((int)k); walk(s, s.to[k], cur, out, dead); cur.pop_back(); } }
static std::vector<Path> paths(const Shape& s, int st, const std::vector<bool>& dead) { std::vector<Path> out; Path c; walk(s, st, c, out, dead); return out; }
static double sum(const Shape& s, const Path& p, const std::vector<double>* alt = 0) { double r = 0; for (size_t i = 0; i < p.size(); i++) r += alt ? (*alt)[p[i]] : s.scr[p[i]]; return r; }
static double mx(double a, double b) { return __sym_ited(a < b, b, a); }
static bool chain(const Shape& s, const std::vector<WordGraphArc>& v, int from, const std::vector<bool>& dead, const std::vector<double>& scr, double& total) { // v runs from the final state back
  total = 0; int st = from; for (size_t i = v.size(); i-- > 0;) { if ((int)v[i].predStateIndex != st) return false; int k = 0; if (v[i].words.size() != 1) return false; while (k < (int)s.from.size() && v[i].words[0] != wname[k]) k++; if (k >= (int)s.from.size() || dead[k] || s.from[k] != st || s.to[k] != (int)v[i].succStateIndex) return false; total += scr[k]; st = s.to[k]; } return s.fin[st]; }
HARNESS(h_best) {
  Shape s = shape(NA, false); WordGraph g; build(g, s); std::vector<bool> dead(s.from.size(), false); int x = sym::choice("excl", -1, (int)s.from.size() - 1); Ex ex; if (x >= 0) { ex.insert(x); dead[x] = true; } int st = sym::choice("state", 0, NS - 2); ASSUME(st < (int)g.numStates());
  std::vector<Path> ps = paths(s, st, dead); std::vector<WordGraphArc> v; double r = g.bestPathFromFinalStateToIdx(st, ex, v);
  if (ps.empty()) { CHECK(r <= SMALL_SCORE && v.empty(), "a state that leads nowhere has no best path"); COVER("dead end"); }
  else { double b = sum(s, ps[0]); for (size_t i = 1; i < ps.size(); i++) b = mx(b, sum(s, ps[i])); if (st == 0) b += s.init; CHECK(r == b, "best path score is the maximum over the allowed paths"); double t; CHECK(chain(s, v, st, dead, s.scr, t), "best path joins the state to a final state by allowed arcs"); CHECK(t + (st == 0 ? s.init : 0.0) == b, "best path arcs add up to its score"); if (x >= 0) COVER("excluded"); COVER("best"); }
  std::vector<Score> prev; std::vector<WordGraphArc> bp; g.calcPrevScores(st, ex, prev, bp); CHECK(prev.size() == g.numStates(), "one previous score per state");
  for (int i = 0; i < (int)g.numStates(); i++) { Shape q = s; q.fin.assign(NS, false); q.fin[i] = true; std::vector<Path> pi = paths(q, st, dead); if (pi.empty()) { CHECK(prev[i] <= SMALL_SCORE, "unreachable states have no previous score"); continue; } double b = sum(s, pi[0]); for (size_t k = 1; k < pi.size(); k++) b = mx(b, sum(s, pi[k])); CHECK(prev[i] == b + (st == 0 ? s.init : 0.0), "previous score is that of the best way to the state"); }
}
HARNESS(h_weights) { // scores recomputed from components, stored or given for one search only
  Shape s = shape(NA > 3 ? 3 : NA, false, 0); s.init = -1; WordGraph g; int m = (int)s.from.size(); std::vector<double> c0, c1; for (int k = 0; k < m; k++) { c0.push_back(sym::fix("c0", k, -1, 1, 0)); c1.push_back(sym::fix("c1", k, -1, 1, 0)); std::vector<Score> c; c.push_back(c0[k]); c.push_back(c1[k]); g.addArcWithScrComps(s.from[k], s.to[k], wordsOf(k), s.scr[k], c); } for (int i = 0; i < NS; i++) if (s.fin[i]) g.addFinalState(i); g.setInitialStateScore(s.init);
  static const float W[][3] = {{1, 0.5f, 0.5f}, {-2, 0, 1}, {0.5f, -2, 1}}; const float* w3 = W[sym::choice("w", 0, 2)]; float a = w3[0], b = w3[1]; std::vector<std::pair<std::string, float> > cw; cw.push_back(std::make_pair("p", a)); cw.push_back(std::make_pair("q", b)); g.setCompWeights(cw); std::vector<std::pair<std::string, float> > back; g.getCompWeights(back); CHECK(back == cw, "component weights are kept");
  std::vector<double> sc, al; float e = w3[2]; for (int k = 0; k < m; k++) { sc.push_back(a * c0[k] + b * c1[k]); al.push_back(e * c0[k] - c1[k]); CHECK(g.wordGraphArcId2WordGraphArc(k).arcScore == sc[k], "arcs are rescored with the new weights"); }
  std::vector<bool> dead(m, false); std::vector<Path> ps = paths(s, 0, dead); ASSUME(!ps.empty()); std::vector<float> alt; alt.push_back(e); alt.push_back(-1); std::vector<WordGraphArc> v; double t;
  double r = g.bestPathFromFinalStateToIdxWeights(0, Ex(), alt, v), w = sum(s, ps[0], &al); for (size_t i = 1; i < ps.size(); i++) w = mx(w, sum(s, ps[i], &al)); CHECK(r == w + s.init && chain(s, v, 0, dead, al, t) && t == w, "best path under other weights");
  r = g.bestPathFromFinalStateToIdx(0, Ex(), v); w = sum(s, ps[0], &sc); for (size_t i = 1; i < ps.size(); i++) w = mx(w, sum(s, ps[i], &sc)); CHECK(r == w + s.init && chain(s, v, 0, dead, sc, t) && t == w, "other weights used once leave the stored ones alone"); COVER("weights");
}
HARNESS(h_prune) {
  Shape s = shape(NA, false, 2); WordGraph g; build(g, s); int m = (int)s.from.size(); std::vector<bool> dead(m, false); std::vector<Path> ps = paths(s, 0, dead); ASSUME(!ps.empty()); static const float T[] = {1, 0.5f, 0.05f, 0}; int ti = sym::choice("t", 0, 3); float t = T[ti]; double best = sum(s, ps[0]); for (size_t i = 1; i < ps.size(); i++) best = mx(best, sum(s, ps[i])); float lt = ti < 3 ? (float)log(t) : 0;
  unsigned n = g.prune(t), pr = 0; for (int k = 0; k < m; k++) { bool on = false; double b = 0; for (size_t i = 0; i < ps.size(); i++) for (size_t j = 0; j < ps[i].size(); j++) if (ps[i][j] == k) { b = on ? mx(b, sum(s, ps[i])) : sum(s, ps[i]); on = true; } bool keep = !g.arcPruned(k); pr += !keep;
    if (ti == 3) CHECK(keep || !on, "threshold zero keeps every arc of a complete path"); else if (!on) CHECK(!keep, "arcs on no complete path are pruned"); else CHECK(keep == (b >= best + lt), "an arc is kept exactly when its best path is close enough to the best one"); }
  CHECK(n == pr && g.getNumberOfNonPrunedArcs() == m - pr && g.getNumberOfPrunedAndNonPrunedArcs() == (unsigned)m, "the number of pruned arcs is reported"); std::vector<WordGraphArc> v; double b2 = g.bestPathFromFinalStateToIdx(0, Ex(), v); CHECK(b2 == best + s.init, "pruning keeps the best path");
  std::vector<bool> was; for (int k = 0; k < m; k++) was.push_back(g.arcPruned(k)); g.prune(t); bool same = true; for (int k = 0; k < m; k++) same &= was[k] == g.arcPruned(k); CHECK(same, "pruning twice prunes nothing else"); for (int st = 0; st < (int)g.numStates(); st++) { std::vector<WordGraphArcId> i, o; g.getArcIdsToPredStates(st, i); g.getArcIdsToSuccStates(st, o); unsigned ni = 0, no = 0; for (int k = 0; k < m; k++) if (!was[k]) { ni += s.to[k] == st; no += s.from[k] == st; } CHECK(i.size() == ni && o.size() == no, "pruned arcs are hidden from their states"); }
  g.prune(UNLIMITED_DENSITY); CHECK(g.getNumberOfNonPrunedArcs() == (unsigned)m, "unlimited density restores every arc"); COVER("prune");
}
HARNESS(h_nbest) {
  Shape s = shape(NA, true, 2); WordGraph g; build(g, s); std::vector<bool> dead(s.from.size(), false); std::vector<Path> ps = paths(s, 0, dead); unsigned len = (unsigned)sym::choice("len", 1, 4); std::vector<std::pair<Score, std::string> > nb; std::vector<NbSearchHighLevelHyp> hl; std::vector<std::vector<Score> > sc; g.obtainNbestList(len, nb, hl, sc);
  CHECK(nb.size() == std::min((size_t)len, ps.size()) && hl.size() == nb.size(), "as many hypotheses as asked for or as there are paths"); std::vector<bool> used(ps.size(), false);
  for (size_t i = 0; i < nb.size(); i++) { if (i) CHECK(nb[i].first <= nb[i - 1].first, "hypotheses are listed best first"); size_t w = ps.size(); for (size_t k = 0; k < ps.size(); k++) { bool eq = hl[i].size() == ps[k].size(); for (size_t j = 0; eq && j < ps[k].size(); j++) eq = hl[i][j].words == wordsOf(ps[k][j]); if (eq) w = k; } CHECK(w < ps.size() && !used[w], "hypotheses are distinct complete paths"); if (w >= ps.size()) return; used[w] = true; std::string str; for (size_t j = 0; j < ps[w].size(); j++) str += (j ? " " : "") + std::string(wname[ps[w][j]]); CHECK(nb[i].second == str, "hypothesis text is that of its arcs"); CHECK(nb[i].first == sum(s, ps[w]) + s.init, "hypothesis score is that of its path"); }
  for (size_t k = 0; k < ps.size(); k++) if (!used[k] && !nb.empty()) CHECK(sum(s, ps[k]) + s.init <= nb.back().first, "no better path is left out"); COVER("nbest");
}
// paths read from the word graph itself: word sequence and score of each, in no particular order
static void collect(const WordGraph& g, HypStateIndex st, std::string w, double sc, std::vector<std::pair<std::string, double> >& out) { if (g.stateIsFinal(st)) out.push_back(std::make_pair(w, sc)); std::vector<WordGraphArc> v; g.getArcsToSuccStates(st, v); for (size_t i = 0; i < v.size(); i++) { std::string x = w; for (size_t k = 0; k < v[i].words.size(); k++) x += v[i].words[k] + " "; collect(g, v[i].succStateIndex, x, sc + v[i].arcScore, out); } }
static bool byWord(const std::pair<std::string, double>& a, const std::pair<std::string, double>& b) { return a.first < b.first; }
static void samePaths(const WordGraph& g, const Shape& s, const std::vector<bool>& dead) { std::vector<Path> ps = paths(s, 0, dead); std::vector<std::pair<std::string, double> > got, want; if (!g.empty()) collect(g, 0, "", 0, got); for (size_t i = 0; i < ps.size(); i++) { std::string w; for (size_t j = 0; j < ps[i].size(); j++) w += std::string(wname[ps[i][j]]) + " "; want.push_back(std::make_pair(w, sum(s, ps[i]))); } std::sort(got.begin(), got.end(), byWord); std::sort(want.begin(), want.end(), byWord); CHECK(got.size() == want.size(), "the complete paths are the same in number"); if (got.size() != want.size()) return; bool w = true; int c = 1; for (size_t i = 0; i < got.size(); i++) { w &= got[i].first == want[i].first; c = sym::both(c, got[i].second == want[i].second); } CHECK(w, "the complete paths spell the same"); CHECKV(c, "the complete paths score the same"); }
HARNESS(h_useful) {
  Shape s = shape(NA, false, 1); WordGraph g; build(g, s); int m = (int)s.from.size(); std::vector<bool> dead(m, false); int p = sym::choice("prune", 0, 1); if (p) { g.prune(0.5f); for (int k = 0; k < m; k++) dead[k] = g.arcPruned(k); }
  g.obtainWgComposedOfUsefulStates(); samePaths(g, s, dead); CHECK(g.getInitialStateScore() == s.init, "the initial score is kept");
  for (size_t i = 0; i < g.numStates(); i++) { std::vector<WordGraphArcId> in, out; g.getArcIdsToPredStates(i, in); g.getArcIdsToSuccStates(i, out); CHECK((i == 0 || !in.empty()) && (g.stateIsFinal(i) || !out.empty()), "every remaining state lies on a complete path"); }
  WordGraph::FinalStateSet f = g.getFinalStateSet(); for (WordGraph::FinalStateSet::iterator i = f.begin(); i != f.end(); ++i) CHECK(*i < g.numStates(), "final states are states"); std::vector<std::pair<Score, std::string> > nb; std::vector<NbSearchHighLevelHyp> hl; std::vector<std::vector<Score> > sc; g.obtainNbestList(2, nb, hl, sc); CHECK(nb.empty() == (paths(s, 0, dead).empty()), "the best path is still found"); if (g.empty()) COVER("nothing useful"); COVER("useful");
}
static Shape shuffled(int na) { Shape s = shape(na, false, 1); int m = (int)s.from.size(); Shape r = s; std::vector<bool> used(m, false); for (int k = 0; k < m; k++) { int j = sym::choice("ord", k, 0, m - 1); ASSUME(!used[j]); used[j] = true; r.from[k] = s.from[j]; r.to[k] = s.to[j]; } return r; }
HARNESS(h_topol) {
  Shape s = shuffled(NA > 3 ? 3 : NA); WordGraph g; int m = (int)s.from.size(); for (int k = 0; k < m; k++) { std::vector<Score> c; c.push_back((Score)(k + 1)); g.addArcWithScrComps(s.from[k], s.to[k], wordsOf(k), s.scr[k], c); } for (int i = 0; i < NS; i++) if (s.fin[i]) g.addFinalState(i); g.setInitialStateScore(s.init);
  g.orderArcsTopol(); CHECK((int)g.numArcs() == m, "ordering keeps the number of arcs"); std::vector<bool> dead(m, false), left(NS, false); for (int k = 0; k < m; k++) { WordGraphArc a = g.wordGraphArcId2WordGraphArc(k); CHECK(!left[a.succStateIndex], "no arc enters a state already left"); left[a.predStateIndex] = true; }
  for (int st = 0; st < (int)g.numStates(); st++) { std::vector<WordGraphArc> v; g.getArcsToPredStates(st, v); for (size_t i = 0; i < v.size(); i++) CHECK((int)v[i].succStateIndex == st, "arcs listed as entering a state enter it"); g.getArcsToSuccStates(st, v); for (size_t i = 0; i < v.size(); i++) CHECK((int)v[i].predStateIndex == st, "arcs listed as leaving a state leave it"); } samePaths(g, s, dead);
  std::vector<Path> ps = paths(s, 0, dead); std::vector<WordGraphArc> v; double r = g.bestPathFromFinalStateToIdx(0, Ex(), v); if (!ps.empty()) { double b = sum(s, ps[0]); for (size_t i = 1; i < ps.size(); i++) b = mx(b, sum(s, ps[i])); CHECK(r == b + s.init, "the ordered graph has the same best score"); COVER("ordered"); }
  std::vector<std::pair<std::string, float> > cw; cw.push_back(std::make_pair("p", 1.0f)); g.setCompWeights(cw); for (int k = 0; k < m; k++) { WordGraphArc a = g.wordGraphArcId2WordGraphArc(k); CHECK(a.words.size() == 1 && a.arcScore == (a.words[0][0] - 'a' + 1), "arcs keep their own score components"); }
}
HARNESS(h_print) { // concrete small scores; shapes, components, words and weights vary
  Shape s = shape(NA > 3 ? 3 : NA, false); int m = (int)s.from.size(); WordGraph g; int comps = 2 * sym::choice("comps", 0, 1), useful = sym::choice("useful", 0, 1), pr = sym::choice("prune", 0, 1); std::vector<int> nw; for (int k = 0; k < m; k++) { s.scr[k] = (double)(-k - 1) / 2; int n = k == 0 ? sym::choice("words", 0, 2) : 1; nw.push_back(n); std::vector<Score> c; for (int i = 0; i < comps; i++) c.push_back(k - 0.25 * i); g.addArcWithScrComps(s.from[k], s.to[k], wordsOf(k, n), s.scr[k], c); } for (int i = 0; i < NS; i++) if (s.fin[i]) g.addFinalState(i);
  std::vector<std::pair<std::string, float> > cw, cb; for (int i = 0; i < comps; i++) cw.push_back(std::make_pair(i ? "q" : "p", 0.5f + i)); if (comps) { g.setCompWeights(cw); for (int k = 0; k < m; k++) s.scr[k] = g.wordGraphArcId2WordGraphArc(k).arcScore; } if (pr) g.prune(0.7f); std::vector<bool> dead(m, false); for (int k = 0; k < m; k++) dead[k] = g.arcPruned(k);
  g.print("wg", useful); WordGraph h; h.addArc(0, 1, wordsOf(0), 1); h.addFinalState(3); CHECK(h.load("wg") == THOT_OK, "a printed graph loads"); h.getCompWeights(cb); CHECK(cb == cw, "weights are read back"); std::vector<std::pair<std::string, double> > a, b; collect(g, 0, "", 0, a); if (!h.empty()) collect(h, 0, "", 0, b); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (h.empty()) CHECK(a.empty() || s.fin[0], "an empty file has no path"); CHECK(a == b, "paths and scores are read back");
  size_t live = 0; for (int k = 0; k < m; k++) live += !dead[k]; if (!useful) { CHECK(h.numArcs() == live, "every live arc is written"); size_t j = 0; for (int k = 0; k < m; k++) if (!dead[k]) { WordGraphArc x = g.wordGraphArcId2WordGraphArc(k), y = h.wordGraphArcId2WordGraphArc(j++); CHECK(x.predStateIndex == y.predStateIndex && x.succStateIndex == y.succStateIndex && x.arcScore == y.arcScore && x.words == y.words, "arcs are read back in order"); } }
  if (comps) { cw[0].second = 2; g.setCompWeights(cw); h.setCompWeights(cw); a.clear(); b.clear(); collect(g, 0, "", 0, a); if (!h.empty()) collect(h, 0, "", 0, b); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "score components are read back"); COVER("comps"); } COVER("print");
}
HARNESS(h_grow) { // arcs may name states in any order
  WordGraph g; int f = sym::choice("f", 0, 4), t = sym::choice("t", 0, 4); ASSUME(f != t); g.addArc(f, t, wordsOf(0), -1); CHECK((int)g.numStates() == std::max(f, t) + 1, "states up to the largest named exist"); WordGraphStateData d = g.getWordGraphStateData(f), e = g.getWordGraphStateData(t); CHECK(d.arcsToSuccStates.size() == 1 && e.arcsToPredStates.size() == 1, "the arc is known to both its states"); COVER("grow"); }
HARNESS(h_handler) { // sentence to word graph file map
  WgHandler h; int n = sym::choice("n", 0, 2); std::vector<std::vector<std::string> > snt; for (int i = 0; i < n; i++) { std::vector<std::string> v; int l = sym::choice("len", i, 1, 2); for (int k = 0; k < l; k++) v.push_back(std::string(1, sym::ch(("w" + std::string(1, '0' + 2 * i + k)).c_str(), "xy"))); snt.push_back(v); } std::string f; for (int i = 0; i < n; i++) { for (size_t k = 0; k < snt[i].size(); k++) f += snt[i][k] + " "; f += std::string("||| file") + char('0' + i) + "\n"; } sym::putFile("h", f); CHECK(h.load("h") == THOT_OK, "handler loads");
  for (int p = 0; p < 2; p++) { for (int i = 0; i < n; i++) { bool found; std::string w = h.pathAssociatedToSentence(snt[i], found); char c = (char)('0' + (n == 2 && snt[0] == snt[1] ? 1 : i)); CHECK(found && w == std::string("file") + c, "each sentence finds its word graph"); } bool found = true; std::vector<std::string> o(1, "z"); h.pathAssociatedToSentence(o, found); CHECK(!found, "other sentences find none"); CHECK(h.size() == (size_t)(n == 2 && snt[0] == snt[1] ? 1 : n), "one entry per sentence"); if (!p) { h.print("h2"); CHECK(h.load("h2") == THOT_OK, "printed handler loads"); } } COVER("handler"); }

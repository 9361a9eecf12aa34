// Hypothesis stacks, multi-stacks with recombination, state dictionaries and n-best tables:
// every short history of operations, scores symbolic.
#include "sym.h"
#include "SmtStack.h"
#include "SmtMultiStackRec.h"
#include "NbestTransTable.h"
#include "PhrNbestTransTablePrefKey.h"
#include "PhrNbestTransTableRefKey.h"
#include <algorithm>
#ifndef NOPS
#define NOPS 5
#endif
struct H { double score; int id; H() : score(0), id(-1) {} Score getScore() const { return score; } };
typedef std::vector<H> VH;

static H hyp(int k) { H h; h.score = sym::fix("s", k, -2, 2, 0); h.id = k; return h; }
static int take(VH& m, int id) { for (size_t i = 0; i < m.size(); i++) if (m[i].id == id) { m.erase(m.begin() + i); return 1; } return 0; }
static void isBest(const VH& m, double s, const char*) { int c = 1; for (size_t i = 0; i < m.size(); i++) c = sym::both(c, m[i].score <= s); CHECKV(c, "a popped hypothesis scores at least as much as every one kept"); }
HARNESS(h_stack) {
  SmtStack<H> st; VH m; unsigned lim = (unsigned)sym::choice("limit", 0, 3); st.setMaxStackSize(lim); CHECK(st.getMaxStackSize() == lim, "the limit is the one set");
  for (int k = 0; k < NOPS; k++) { int op = sym::choice("op", k, 0, 3);
    if (op == 0) { H h = hyp(k); VH before; for (SmtStack<H>::iterator i = st.begin(); i != st.end(); ++i) before.push_back(*i); bool in = st.push(h); m.push_back(h); VH now; for (SmtStack<H>::iterator i = st.begin(); i != st.end(); ++i) now.push_back(*i); CHECK(now.size() == std::min((size_t)lim, m.size()), "a stack holds every hypothesis pushed, up to its limit"); VH gone = m; int known = 1; for (size_t i = 0; i < now.size(); i++) known &= take(gone, now[i].id); CHECK(known, "a stack holds only hypotheses pushed and not popped"); int c = 1; for (size_t i = 0; i < gone.size(); i++) for (size_t j = 0; j < now.size(); j++) c = sym::both(c, gone[i].score <= now[j].score); CHECKV(c, "what a full stack drops is no better than what it keeps"); bool has = false; for (size_t i = 0; i < now.size(); i++) has |= now[i].id == k; CHECK(in == has, "a push reports whether the hypothesis was kept"); c = 1; for (size_t i = 1; i < now.size(); i++) c = sym::both(c, now[i].score <= now[i-1].score); CHECKV(c, "iteration runs from the best hypothesis to the worst"); m = now; }
    else if (op == 1 && !m.empty()) { H t = st.top(), p = st.pop(); CHECK(t.id == p.id && t.score == p.score, "top is what pop returns"); CHECK(take(m, p.id), "what is popped was pushed"); isBest(m, p.score, ""); COVER("pop"); }
    else if (op == 2 && !m.empty()) { H l = st.last(); st.removeLast(); CHECK(take(m, l.id), "the last hypothesis is in the stack"); int c = 1; for (size_t i = 0; i < m.size(); i++) c = sym::both(c, m[i].score >= l.score); CHECKV(c, "the hypothesis removed last is the worst"); COVER("removeLast"); }
    else if (op == 3) { if (m.empty()) { st.removeLast(); CHECK(st.empty(), "removing from an empty stack does nothing"); } else { SmtStack<H>::iterator i = st.begin(); if (m.size() > 1) ++i; H x = *i; st.remove(i); CHECK(take(m, x.id), "a hypothesis can be removed by its place"); } COVER("remove"); }
    CHECK(st.size() == m.size() && st.empty() == m.empty(), "size counts the hypotheses held"); }
  if (!m.empty()) { unsigned nl = (unsigned)sym::choice("newlimit", 1, 2); st.setMaxStackSize(nl); H h = hyp(NOPS); st.push(h); CHECK(st.size() <= nl, "a lowered limit is met at the next push"); COVER("lowered"); } st.clear(); CHECK(st.empty(), "a cleared stack is empty");
}
// hypotheses with a state (recombined when equal) and an equivalence class (one stack each)
struct HF { typedef int EqClassType; struct EqClassTypeHashF { size_t operator()(int k) const { return (size_t)k; } }; };
struct R { typedef int HypState; typedef HF EqClassFunc; double score; int id, state, cls; R() : score(0), id(-1), state(-1), cls(-1) {} Score getScore() const { return score; } int getHypState() const { return state; } int getEqClass() const { return cls; } Bitset<MAX_SENTENCE_LENGTH_ALLOWED> getKey() const { Bitset<MAX_SENTENCE_LENGTH_ALLOWED> b; b.set(state); return b; } };
typedef std::vector<R> VR;
static int takeR(VR& m, int id) { for (size_t i = 0; i < m.size(); i++) if (m[i].id == id) { m.erase(m.begin() + i); return 1; } return 0; }
static void multi(bool small) {
  SmtMultiStackRec<R> st; HypStateDict<R> dict; st.setHypStateDictPtr(&dict); VR m; unsigned lim = (unsigned)sym::choice("limit", 1, 2); bool bf = sym::choice("bf", 0, 1); st.setMaxStackSize(lim); st.set_bf(bf); std::vector<double> best(3, -1e9); int steps = small ? NOPS - 1 : NOPS;
  for (int k = 0; k < steps; k++) { int op = small ? sym::choice("op", k, 0, 2) : sym::choice("op", k, 0, 1);
    if (op == 0) { R h; h.id = k; h.state = sym::choice("state", k, 0, 2); h.cls = h.state == 2 ? 1 : 0; h.score = sym::fix("s", k, -2, 2, 0); bool worse = best[h.state] > h.score; bool in = st.push(h); bool known = dict.find(h.state) != dict.end(); CHECK(known, "every pushed state is in the dictionary");
      if (worse) { CHECK(!in, "a hypothesis worse than one seen in its state is discarded"); COVER("worse"); } else { best[h.state] = h.score; int old = -1; for (size_t i = 0; i < m.size(); i++) if (m[i].state == h.state) old = (int)i; if (old >= 0) { m.erase(m.begin() + old); COVER("recombined"); } VR same; for (size_t i = 0; i < m.size(); i++) if (m[i].cls == h.cls) same.push_back(m[i]); bool full = same.size() >= lim; if (!full) { CHECK(in, "a hypothesis that fits is kept"); m.push_back(h); } else { size_t w = 0; for (size_t i = 1; i < same.size(); i++) if (same[i].score < same[w].score) w = i; if (same[w].score >= h.score) CHECK(!in, "a full stack refuses what is no better than its worst"); else { CHECK(in, "a full stack takes what is better than its worst"); m.push_back(h); double ws = same[w].score; int ties = 0; for (size_t i = 0; i < same.size(); i++) ties += same[i].score == ws; if (ties > 1) return; takeR(m, same[w].id); COVER("dropped"); } } } CHECK(dict.find(h.state)->second.score == best[h.state], "the dictionary knows the best score of each state"); }
    else if (op == 1 && !m.empty()) { R t = st.top(), p = st.pop(); CHECK(t.score == p.score && t.cls == p.cls, "top is what pop returns"); CHECK(takeR(m, p.id), "what is popped was pushed and not dropped"); int c = 1; for (size_t i = 0; i < m.size(); i++) c = sym::both(c, bf ? m[i].cls > p.cls || (m[i].cls == p.cls && m[i].score <= p.score) : m[i].score <= p.score); CHECKV(c, "pop takes the best hypothesis of the first class, or of all classes"); COVER("pop"); }
    else if (op == 2 && !m.empty()) { R l = st.last(); st.removeLast(); CHECK(takeR(m, l.id), "the last hypothesis is one held"); int c = 1; for (size_t i = 0; i < m.size(); i++) c = sym::both(c, bf ? m[i].cls < l.cls || (m[i].cls == l.cls && m[i].score >= l.score) : m[i].score >= l.score); CHECKV(c, "the hypothesis removed last is the worst of the last class, or of all"); COVER("removeLast"); }
    CHECK(st.empty() == m.empty(), "empty exactly when nothing is held"); int c0 = 0, c1 = 0; for (size_t i = 0; i < m.size(); i++) (m[i].cls ? c1 : c0) = 1; CHECK(st.size() == (size_t)(c0 + c1), "size counts the non-empty stacks"); }
  double prev = 1e9; int pc = -1; while (!m.empty()) { R p = st.pop(); CHECK(takeR(m, p.id), "everything held is popped once"); CHECK(bf ? p.cls > pc || p.score <= prev : p.score <= prev, "pops come best first"); prev = p.score; pc = p.cls; CHECK(m.empty() || !st.empty(), "nothing is lost"); if (st.empty()) break; } CHECK(st.empty(), "nothing is invented"); st.clear(); CHECK(st.empty(), "a cleared multi-stack is empty");
}
HARNESS(h_multi) { multi(false); } HARNESS(h_multi_last) { multi(true); }
HARNESS(h_dict) { // states keep the index they were given first
  HypStateDict<R> d; std::vector<int> idx(3, -1); std::vector<double> sc(3, 0); int n = 0; for (int k = 0; k < NOPS; k++) { R h; h.state = sym::choice("state", k, 0, 2); h.score = sym::fix("s", k, -2, 2, 0); bool was = d.find(h.state) != d.end(); CHECK(was == (idx[h.state] >= 0), "a state is found exactly after it was entered"); HypStateDict<R>::iterator i = d.createDictEntry(h); if (!was) idx[h.state] = n++; sc[h.state] = h.score; CHECK((int)i->second.hypStateIndex == idx[h.state], "states are numbered in order of arrival and keep their number"); CHECK(d.size() == (size_t)n, "one entry per state"); for (int s = 0; s < 3; s++) if (idx[s] >= 0) CHECK(d.find(s)->second.score == sc[s] && (int)d.find(s)->second.hypStateIndex == idx[s], "an entry has the score given last"); COVER("dict"); } d.clear(); CHECK(d.size() == 0, "a cleared dictionary is empty"); }
HARNESS(h_node) { // n-best lists
  NbestTableNode<int> t; VH m; CHECK(t.getScoreOfBestElem() == 0 && t.size() == 0, "an empty list has no best element"); int n = sym::choice("n", 1, NOPS - 1); for (int k = 0; k < n; k++) { H h = hyp(k); if (k & 1) t.insert(h.score, 10 - h.id); else t.insert(std::make_pair((Score)h.score, 10 - h.id)); m.push_back(h); }
  CHECK(t.size() == m.size(), "a list has every element"); double b = m[0].score; for (size_t i = 1; i < m.size(); i++) b = __sym_ited(m[i].score > b, m[i].score, b); CHECK(t.getScoreOfBestElem() == b, "the best score is the maximum"); int be = t.getBestElem(); CHECK(be == t.begin()->second, "the best element comes first");
  int op = sym::choice("op", 0, 3); if (op == 1) { t.removeLastElement(); COVER("removed"); } double thr = 0; if (op == 2) { thr = sym::fix("thr", -3, 3, 0); t.pruneGivenThreshold(thr); COVER("pruned"); } if (op == 3) { t.stableSort(); COVER("sorted"); }
  VH left = m; int c = 1, first = 1; double prev = 0; int pd = 0; for (NbestTableNode<int>::iterator i = t.begin(); i != t.end(); ++i) { int id = 10 - i->second; double s = 9; for (size_t k = 0; k < m.size(); k++) if (m[k].id == id) s = m[k].score; CHECK(take(left, id), "an element is listed once"); CHECK(i->first == s, "an element keeps its score"); if (!first) { c = sym::both(c, prev >= s); if (op == 3) c = sym::both(c, sym::either(prev > s, pd < i->second)); } if (op == 2) c = sym::both(c, s >= thr); prev = s; pd = i->second; first = 0; }
  CHECKV(c, "elements are listed best first, ties by content once sorted"); if (op == 2) { int g = 1; for (size_t i = 0; i < left.size(); i++) g = sym::both(g, left[i].score < thr); CHECKV(g, "exactly the elements below the threshold are pruned"); } else if (op == 1) { CHECK(left.size() == 1, "one element is removed"); int g = 1; if (left.size() == 1) for (size_t i = 0; i < m.size(); i++) g = sym::both(g, left[0].score <= m[i].score); CHECKV(g, "the element removed is the worst"); } else CHECK(left.empty(), "no element is lost");
  t.clear(); CHECK(t.size() == 0, "a cleared list is empty"); }
static PhrNbestTransTablePrefKey pk(int k) { PhrNbestTransTablePrefKey p; p.srcLeft = sym::range("l", k, 0, 2); p.srcRight = sym::range("r", k, 0, 2); p.ntrgSize = sym::range("n", k, 0, 2); p.lastGap = sym::range("g", k, 0, 1); return p; }
HARNESS(h_table) { // the caches of translations by source span are maps
  PhrNbestTransTablePrefKey a = pk(0), b = pk(1), c = pk(2); int eq = sym::both(sym::both(a.srcLeft == b.srcLeft, a.srcRight == b.srcRight), sym::both(a.ntrgSize == b.ntrgSize, a.lastGap == b.lastGap)); bool ab = a < b, ba = b < a; CHECK((ab || ba) == !eq && !(ab && ba), "span keys are ordered unless they are equal"); if (ab && b < c) CHECK(a < c, "the order of span keys is transitive");
  PhrNbestTransTableRefKey p, q; p.srcLeft = a.srcLeft; p.srcRight = a.srcRight; p.ntrgSize = a.ntrgSize; p.numGaps = a.lastGap; q.srcLeft = b.srcLeft; q.srcRight = b.srcRight; q.ntrgSize = b.ntrgSize; q.numGaps = b.lastGap; bool pq = p < q, qp = q < p; CHECK((pq || qp) == !eq && !(pq && qp), "reference keys are ordered unless they are equal");
  NbestTransTable<int, int> t; int n = sym::choice("n", 1, 3); std::vector<int> have(3, 0); for (int i = 0; i < n; i++) { int k = sym::choice("key", i, 0, 2); NbestTableNode<int> nd; nd.insert(1.0 * i, i + 1); NbestTableNode<int>* r = t.insertEntry(k, nd); if (!have[k]) have[k] = i + 1; CHECK(r && r->getBestElem() == have[k], "the first entry of a key stays"); } for (int k = 0; k < 3; k++) { NbestTableNode<int>* r = t.getTranslationsForKey(k); CHECK((r != 0) == (have[k] != 0), "a key is found exactly when entered"); if (r) CHECK(r->getBestElem() == have[k], "a key gives back its list"); } size_t cnt = 0; for (NbestTransTable<int, int>::iterator i = t.begin(); i != t.end(); ++i) { cnt++; CHECK(i->second.getBestElem() == have[i->first], "iteration visits the entries"); } CHECK(cnt == t.size(), "iteration visits every entry"); COVER("table"); }

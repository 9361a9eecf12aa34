// Phrase tables (red-black tree, HAT-trie and LevelDB backends) against a plain list of entries.
#include "sym.h"
#include <unistd.h>
#include <iostream>
#include "PhraseDefs.h"
#include "StlPhraseTable.h"
#include "HatTriePhraseTable.h"
#undef WORD_INDEX_MODULO_BASE
#undef WORD_INDEX_MODULO_BYTES
#include "LevelDbPhraseTable.h"
#ifndef NOPS
#define NOPS 3
#endif
typedef std::vector<WordIndex> Ph;
static bool eqp(const Ph& a, const Ph& b) { if (a.size() != b.size()) return false; int ok = 1; for (size_t i = 0; i < a.size(); i++) ok = sym::both(ok, a[i] == b[i]); return ok; }
struct One { Ph p; float c; One(const Ph& a, float b) : p(a), c(b) {} };
struct Two { Ph s, t; float c; Two(const Ph& a, const Ph& d, float b) : s(a), t(d), c(b) {} };
struct Ref { std::vector<One> s, t; std::vector<Two> p;
  static float* at(std::vector<One>& v, const Ph& k) { for (size_t i = 0; i < v.size(); i++) if (eqp(v[i].p, k)) return &v[i].c; return 0; }
  float* at(const Ph& a, const Ph& b) { for (size_t i = 0; i < p.size(); i++) if (eqp(p[i].s, a) && eqp(p[i].t, b)) return &p[i].c; return 0; }
  float cs(const Ph& k) { float* f = at(s, k); return f ? *f : 0; } float ct(const Ph& k) { float* f = at(t, k); return f ? *f : 0; } float cst(const Ph& a, const Ph& b) { float* f = at(a, b); return f ? *f : 0; }
  static void put(std::vector<One>& v, const Ph& k, float c) { float* f = at(v, k); if (f) *f = c; else v.push_back(One(k, c)); }
  void put(const Ph& a, const Ph& b, float c) { float* f = at(a, b); if (f) *f = c; else p.push_back(Two(a, b, c)); }
  void incr(const Ph& a, const Ph& b, float c) { put(s, a, cs(a) + c); put(t, b, ct(b) + c); put(a, b, cst(a, b) + c); }
  void clear() { s.clear(); t.clear(); p.clear(); } };
struct Scratch { LevelDbPhraseTable t; Scratch() { std::cerr.setstate(std::ios::failbit); t.init("ldb"); } ~Scratch() { t.drop(); } };
template <class T> struct Face { T tab; BasePhraseTable& b() { return tab; } };
template <> struct Face<LevelDbPhraseTable> { Scratch tab; BasePhraseTable& b() { return tab.t; } };
// phrases: arbitrary words for the tree, a fixed set with shared prefixes and encoding digits for the byte-keyed tables
static int probing; // a phrase outside the history is queried: shorter phrases and fixed counts in the history
template <class T> struct Gen { static Ph phrase(const char* n, int i) { std::string nm = std::string(n) + char('0' + i); int k = (i == 0 && !probing) || NOPS > 3 ? sym::choice((nm + "l").c_str(), 1, 2) : 1; Ph r; for (int j = 0; j < k; j++) r.push_back((WordIndex)sym::bits((nm + char('a' + j)).c_str(), 32)); return r; }
  static float count(const char* n, int i) { if (probing && NOPS < 4) return i + 1; return (float)sym::fix(n, i, 0, 4, 1); } };
static Ph table(const char* n, int i) { int k = sym::choice(n, i, 0, NOPS > 3 ? 3 : 2); Ph r; r.push_back(k == 2 ? 257 : 3); if (k == 1) r.push_back(254); if (k == 3) r.push_back(4); return r; }
template <> struct Gen<HatTriePhraseTable> { static Ph phrase(const char* n, int i) { return table(n, i); } static float count(const char* n, int i) { if (probing && NOPS < 4) return i + 1; return (float)sym::fix(n, i, 0, 4, 1); } };
template <> struct Gen<LevelDbPhraseTable> { static Ph phrase(const char* n, int i) { return table(n, i); } static float count(const char* n, int i) { if (probing && NOPS < 4) return 2 + i; return (float)(sym::choice(n, i, 0, 1) * (2 + i)); } };
static void listed(BasePhraseTable& b, Ref& r, const Ph& k, bool bySrc) {
  BasePhraseTable::SrcTableNode m; bool any = bySrc ? b.getEntriesForSource(k, m) : b.getEntriesForTarget(k, m); size_t n = 0;
  for (size_t i = 0; i < r.p.size(); i++) if (eqp(bySrc ? r.p[i].s : r.p[i].t, k)) { const Ph& o = bySrc ? r.p[i].t : r.p[i].s; float c = bySrc ? r.ct(o) : r.cs(o); if (c == 0 || r.p[i].c == 0) continue; n++;
    CHECK(m.count(o) == 1, "every translation with a count is listed"); PhrasePairInfo x = m[o]; CHECK(x.first.get_c_s() == c, "listed translations carry their marginal count"); CHECK(x.second.get_c_st() == r.p[i].c, "listed translations carry their joint count"); }
  CHECK(m.size() == n, "only translations with a count are listed"); CHECK(any == (n > 0), "whether there are translations is reported");
}
template <class T> static void agree(T& tab, BasePhraseTable& b, Ref& r, const Ph& s, const Ph& t, bool src) {
  bool f; CHECK(b.cSrc(s).get_c_s() == r.cs(s), "source marginal"); CHECK(b.cTrg(t).get_c_s() == r.ct(t), "target marginal"); CHECK(b.cSrcTrg(s, t).get_c_st() == r.cst(s, t), "joint count");
  CHECK(b.getSrcInfo(s, f).get_c_s() == r.cs(s) && f == (Ref::at(r.s, s) != 0), "stored sources are found"); CHECK(b.getSrcTrgInfo(s, t, f).get_c_st() == r.cst(s, t) && f == (r.at(s, t) != 0), "stored pairs are found");
  PhrasePairInfo x = b.infSrcTrg(s, t, f); CHECK(x.first.get_c_s() == r.cs(s) && x.second.get_c_st() == r.cst(s, t) && f == (Ref::at(r.s, s) != 0 && r.at(s, t) != 0), "entry information");
  listed(b, r, t, false); if (src) listed(b, r, s, true);
}
// iteration: the tree lists sources, targets and pairs; the HAT-trie lists counted targets; LevelDB lists its keys
static void iterated(StlPhraseTable& tab, Ref& r) { size_t n = 0; for (StlPhraseTable::const_iterator i = tab.begin(); i != tab.end() && n < 99; i++, n++) { StlPhraseTable::PhraseInfoElement e = *i; const Ph &s = e.first.first, &t = e.first.second; float* c = t.empty() ? Ref::at(r.s, s) : s.empty() ? Ref::at(r.t, t) : r.at(s, t); CHECK(c != 0, "iteration visits stored keys only"); CHECK(e.second == (int)*c, "iteration gives the whole part of the stored counts"); }
  CHECK(n == r.s.size() + r.t.size() + r.p.size(), "iteration visits every key once"); CHECK(tab.size() == n, "size counts the stored keys"); }
static void iterated(HatTriePhraseTable& tab, Ref& r) { size_t n = 0, m = 0; for (HatTriePhraseTable::const_iterator i = tab.begin(); i != tab.end() && n < 99; i++, n++) { HatTriePhraseTable::PhraseInfoElement e = *i; float* c = Ref::at(r.t, e.first); CHECK(c != 0 && *c != 0, "iteration visits counted targets only"); CHECK(e.second.get_c_s() == *c, "iteration gives the stored counts"); }
  for (size_t i = 0; i < r.t.size(); i++) if (r.t[i].c != 0) m++; CHECK(n == m, "iteration visits every counted target once"); CHECK(tab.size() == r.s.size() + r.t.size() + r.p.size(), "size counts the stored keys"); }
static void iterated(Scratch& x, Ref& r) { LevelDbPhraseTable& tab = x.t; size_t n = 0; for (LevelDbPhraseTable::const_iterator i = tab.begin(); i != tab.end() && n < 99; i++, n++) { std::pair<Ph, int> e = *i; Ph s, t; bool u = false; for (size_t k = 0; k < e.first.size(); k++) if (e.first[k] == UNUSED_WORD) u = true; else (u ? s : t).push_back(e.first[k]); float* c = !u ? Ref::at(r.t, t) : t.empty() ? Ref::at(r.s, s) : r.at(s, t); CHECK(c != 0 && (float)e.second == *c, "iteration visits stored keys with their counts"); }
  CHECK(n == r.s.size() + r.t.size() + r.p.size(), "iteration visits every key once"); CHECK(tab.size() == n, "size counts the stored keys"); }
template <class T> static void history(int nops, bool src) {
  Face<T> f; BasePhraseTable& b = f.b(); Ref r; int q = sym::choice("q", 0, 2), n = sym::choice("n", 0, nops); Ph s, t; probing = q;
  for (int i = 0; i < n; i++) { int op = sym::choice("op", i, 0, i ? 3 : 2); if (op == 3) { b.clear(); r.clear(); continue; } s = Gen<T>::phrase("s", i); if (op == 2) { float c = Gen<T>::count("c", i); b.addSrcInfo(s, c); Ref::put(r.s, s, c); continue; }
    t = Gen<T>::phrase("t", i); float c = Gen<T>::count("c", i); if (op == 0) { b.incrCountsOfEntry(s, t, c); r.incr(s, t, c); } else { ASSUME(r.at(s, t) == 0); float d = Gen<T>::count("d", i); b.addTableEntry(s, t, PhrasePairInfo(Count(d), Count(c))); Ref::put(r.s, s, d); Ref::put(r.t, t, r.ct(t) + c); r.put(s, t, c); } }
  if (q == 1 || s.empty()) s = Gen<T>::phrase("s", 9); if (q == 2 || t.empty()) t = Gen<T>::phrase("t", 9);
  agree(f.tab, b, r, s, t, src); for (size_t i = 0; i < r.p.size(); i++) agree(f.tab, b, r, r.p[i].s, r.p[i].t, false); for (size_t i = 0; i < r.s.size(); i++) CHECK(b.cSrc(r.s[i].p).get_c_s() == r.s[i].c, "sources keep their counts"); for (size_t i = 0; i < r.t.size(); i++) CHECK(b.cTrg(r.t[i].p).get_c_s() == r.t[i].c, "targets keep their counts"); iterated(f.tab, r); COVER("history");
}
HARNESS(h_stl) { history<StlPhraseTable>(NOPS - 1, true); }
HARNESS(h_hat) { history<HatTriePhraseTable>(NOPS - 1, true); }
HARNESS(h_ldb) { history<LevelDbPhraseTable>(NOPS - 1, false); }
// conditional probabilities and ranked translations
template <class T> static void probs(bool src, int nops) {
  Face<T> f; BasePhraseTable& b = f.b(); Ref r; for (int i = 0; i < nops; i++) { int k = sym::choice("t", i, 0, 2); Ph s(1, 3 + sym::choice("s", i, 0, 1)), t(1, 3 + k % 2); if (k == 2) t.push_back(3); float c = (float)sym::choice("c", i, i ? 1 : 0, 2); b.incrCountsOfEntry(s, t, c); r.incr(s, t, c); }
  for (int x = 3; x < 5; x++) for (int y = 3; y < 5; y++) { Ph s(1, x), t(1, y); float c = r.cst(s, t); CHECK((double)b.pTrgGivenSrc(s, t) == (double)Prob(c > 0 ? c / r.cs(s) : PHRASE_PROB_SMOOTH), "p(t|s) is joint over source count"); CHECK((double)b.pSrcGivenTrg(s, t) == (double)Prob(c > 0 ? c / r.ct(t) : PHRASE_PROB_SMOOTH), "p(s|t) is joint over target count"); CHECK((double)b.logpTrgGivenSrc(s, t) == (double)LgProb(log((double)b.pTrgGivenSrc(s, t))) && (double)b.logpSrcGivenTrg(s, t) == (double)LgProb(log((double)b.pSrcGivenTrg(s, t))), "log-probabilities are the logarithms of the probabilities"); }
  int limit = sym::choice("lim", -1, 1); for (int side = 0; side < (src ? 2 : 1); side++) for (int x = 3; x < 5; x++) { Ph k(1, x); NbestTableNode<PhraseTransTableNodeData> nb; size_t n = 0; for (size_t i = 0; i < r.p.size(); i++) if (r.p[i].c > 0 && eqp(side ? r.p[i].s : r.p[i].t, k)) n++; int lim = side ? -1 : limit; bool any = side ? b.getNbestForSrc(k, nb) : b.getNbestForTrg(k, nb, lim); CHECK(any == (n > 0), "ranked translations are reported when there are any");
    CHECK(nb.size() == (lim >= 0 && (size_t)lim < n ? (size_t)lim : n), "ranked translations are all those counted, up to the limit"); double prev = 1, worst = 1; 
    for (NbestTableNode<PhraseTransTableNodeData>::iterator i = nb.begin(); i != nb.end(); ++i) { const Ph& s = side ? k : i->second; const Ph& t = side ? i->second : k; float c = r.cst(s, t); CHECK(c > 0 && fabs((double)i->first - log(c / (side ? r.cs(k) : r.ct(k)))) < 1e-5, "a ranked translation scores its log-probability"); CHECK((double)i->first <= prev, "translations are ranked by score"); prev = (double)i->first; worst = c; }
    if (nb.size()) for (size_t i = 0, out = 0; i < r.p.size(); i++) if (eqp(side ? r.p[i].s : r.p[i].t, k) && r.p[i].c > worst) { out++; CHECK(out < nb.size(), "no better translation is cut off"); } }
  COVER("probs");
}
HARNESS(h_stl_prob) { probs<StlPhraseTable>(true, 3); }
HARNESS(h_hat_prob) { probs<HatTriePhraseTable>(true, 3); }
HARNESS(h_ldb_prob) { probs<LevelDbPhraseTable>(false, 2); }
// a pair stored before its parts gets empty parts
HARNESS(h_stl_pair) { StlPhraseTable b; std::cerr.setstate(std::ios::failbit); Ref r; Ph s = Gen<StlPhraseTable>::phrase("s", 0), t = Gen<StlPhraseTable>::phrase("t", 0), u = Gen<StlPhraseTable>::phrase("s", 1); if (sym::choice("pre", 0, 1)) { b.addSrcInfo(u, 2); Ref::put(r.s, u, 2); } float c = Gen<StlPhraseTable>::count("c", 0); b.addSrcTrgInfo(s, t, c); if (!Ref::at(r.s, s)) Ref::put(r.s, s, 0); Ref::put(r.t, t, 0); r.put(s, t, c); agree(b, b, r, s, t, true); iterated(b, r); COVER("pair"); }

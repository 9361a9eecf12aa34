// N-gram count tables (trie and LevelDB backends) against a plain list of n-grams.
#include "sym.h"
#include <math.h>
#include <iostream>
#include "vecx_x_incr_cptable.h"
#include "LevelDbNgramTable.h"
#ifndef NOPS
#define NOPS 2
#endif
typedef std::vector<WordIndex> Ph;
typedef BaseIncrCondProbTable<Ph, WordIndex, Count, Count> Base;
static bool eqp(const Ph& a, const Ph& b) { if (a.size() != b.size()) return false; int ok = 1; for (size_t i = 0; i < a.size(); i++) ok = sym::both(ok, a[i] == b[i]); return ok; }
static bool eqw(WordIndex a, WordIndex b) { return a == b; }
static bool near(double a, double b) { return sym::both(a - b <= 1e-6 * (1 + b), b - a <= 1e-6 * (1 + b)); }
static im_pair<Count, Count> info(float d, float c) { im_pair<Count, Count> x; x.first = Count(d); x.second = Count(c); return x; }
struct One { Ph k; float c; One(const Ph& a, float b) : k(a), c(b) {} };
static Ph cat(const Ph& s, WordIndex t) { Ph r(s); r.push_back(t); return r; }
static Ph cut(const Ph& g) { return Ph(g.begin(), g.end() - 1); }
// shared: the count of a history is the count of the n-gram of the same words (LevelDB)
struct Ref { bool shared; float null; std::vector<One> h, g; Ref(bool s) : shared(s), null(0) {}
  static float* at(std::vector<One>& v, const Ph& k) { for (size_t i = 0; i < v.size(); i++) if (eqp(v[i].k, k)) return &v[i].c; return 0; }
  static void put(std::vector<One>& v, const Ph& k, float c) { float* f = at(v, k); if (f) *f = c; else v.push_back(One(k, c)); }
  std::vector<One>& hist() { return shared ? g : h; }
  float* src(const Ph& s) { return s.empty() ? &null : at(hist(), s); } float cs(const Ph& s) { float* f = src(s); return f ? *f : 0; } float cst(const Ph& s, WordIndex t) { float* f = at(g, cat(s, t)); return f ? *f : 0; }
  void putSrc(const Ph& s, float c) { if (s.empty()) null = c; else put(hist(), s, c); } void putNgram(const Ph& s, WordIndex t, float c) { put(g, cat(s, t), c); }
  void incr(const Ph& s, WordIndex t, float c) { putNgram(s, t, cst(s, t) + c); if (!shared) putSrc(s, cs(s) + c); }
  void clear() { h.clear(); g.clear(); null = 0; } };
typedef vecx_x_incr_cptable<WordIndex, Count, Count> Mem;
struct Db { LevelDbNgramTable t; Db() { std::cerr.setstate(std::ios::failbit); t.init("ldb"); } ~Db() { t.drop(); } };
template <class T> struct Face { T tab; T& own() { return tab; } Base& b() { return tab; } };
template <> struct Face<Db> { Db tab; LevelDbNgramTable& own() { return tab.t; } Base& b() { return tab.t; } };
template <class T> struct Gen { enum { shared = 0 };
  static WordIndex word(const char* n, int i) { std::string nm = std::string(n) + char('0' + i); return (WordIndex)sym::bits(nm.c_str(), 32); }
  static Ph hist(const char* n, int i) { int k = i == 9 ? 1 : sym::choice(n, i, 0, i && NOPS < 3 ? 1 : 2); Ph r; for (int j = 0; j < k; j++) r.push_back(word(j ? "v" : "u", i)); return r; }
  static float count(const char* n, int i) { if (i && NOPS < 3) return 1.5; return (float)sym::fix(n, i, 0, 3, 1); } };
template <> struct Gen<Db> { enum { shared = 1 };
  static WordIndex word(const char* n, int i) { static const WordIndex w[] = {253, 0, 254}; return w[sym::choice(n, i, 0, NOPS > 2 ? 2 : 1)]; }
  static Ph hist(const char* n, int i) { int k = i == 9 ? 1 : sym::choice(n, i, 0, i && NOPS < 3 ? 1 : 2); Ph r; for (int j = 0; j < k; j++) r.push_back(j && NOPS < 3 ? 253 : word(j ? "v" : "u", i)); return r; }
  static float count(const char* n, int i) { if (i == 1 && NOPS < 3) return 2.25f; static const float c[] = {1234567.f, 0, 2.25f}; return c[sym::choice(n, i, 0, NOPS > 2 ? 2 : 1)]; } };
static void found(Ref& r, bool f, bool has) { CHECK(has ? f : !(f && r.shared), "stored n-grams and histories are found"); }
static void agree(Base& b, Ref& r, const Ph& s, WordIndex t) {
  bool f; double cs = r.cs(s), cst = r.cst(s, t); bool hs = r.src(s) != 0, hg = Ref::at(r.g, cat(s, t)) != 0;
  CHECKV(near(b.cSrc(s).get_c_s(), cs), "count of a history"); CHECKV(near(b.cSrcTrg(s, t).get_c_st(), cst), "count of an n-gram");
  CHECKV(near(b.getSrcInfo(s, f).get_c_s(), cs), "information of a history"); found(r, f, hs); CHECKV(near(b.getSrcTrgInfo(s, t, f).get_c_st(), cst), "information of an n-gram"); found(r, f, hg);
  im_pair<Count, Count> x = b.infSrcTrg(s, t, f); if (f) { CHECKV(near(x.first.get_c_s(), cs), "entry history count"); CHECKV(near(x.second.get_c_st(), cst), "entry n-gram count"); } if (hg && hs) CHECK(f, "stored entries are found");
}
static void probs(Base& b, Ref& r, const Ph& s, WordIndex t, bool logs) {
  double cs = r.cs(s), cst = r.cst(s, t); double p = (double)b.pTrgGivenSrc(s, t);
  if (cs > 0 && cst > 0) CHECKV(near(p * cs, cst), "p(word|history) is n-gram over history count"); else CHECK(p == 0, "unseen n-grams have probability zero");
  if (logs) { double lp = (double)b.logpTrgGivenSrc(s, t); if (cs > 0 && cst > 0) CHECK(fabs(lp - log(cst / cs)) < 1e-5, "the log-probability is the logarithm of the probability"); else CHECK(!(lp > -9e4), "unseen n-grams have a log-probability of minus infinity"); }
}
static double target(Base& b, Ref& r, WordIndex t) { double c = 0; for (size_t i = 0; i < r.g.size(); i++) if (r.g[i].k.size() > 1 && eqw(r.g[i].k.back(), t)) c += r.g[i].c; CHECKV(near(b.cTrg(t).get_c_s(), c), "count of a word is the sum over its histories"); return c; }
static void inverse(Base& b, Ref& r, const Ph& s, WordIndex t) { double c = target(b, r, t), cst = r.cst(s, t); if (s.empty()) return; double q = (double)b.pSrcGivenTrg(s, t), lq = (double)b.logpSrcGivenTrg(s, t);
  if (c > 0 && cst > 0) { CHECK(fabs(q - cst / c) < 1e-5, "p(history|word) is n-gram over word count"); CHECK(fabs(lq - log(cst / c)) < 1e-5, "its log-probability is its logarithm"); CHECK(fabs((double)b.lcTrg(t).get_lc_s() - log(c)) < 1e-5, "log-count of a word"); } else { CHECK(q == 0, "unseen n-grams have inverse probability zero"); CHECK(!(lq > -9e4), "and its logarithm is minus infinity"); } }
static int limit;
static void lists(Base& b, Ref& r, const Ph& s, WordIndex t, bool logs) {
  Base::SrcTableNode m; bool any = b.getEntriesForTarget(t, m); size_t n = 0, k = 0; for (size_t i = 0; i < r.g.size(); i++) if (r.g[i].k.size() > 1 && eqw(r.g[i].k.back(), t) && r.g[i].c != 0) { Ph o = cut(r.g[i].k); n++; CHECK(m.count(o) == 1, "every history of a word is listed"); im_pair<Count, Count> x = m[o]; CHECKV(near(x.first.get_c_s(), r.cs(o)), "listed histories carry their count"); CHECKV(near(x.second.get_c_st(), r.g[i].c), "listed histories carry the n-gram count"); }
  for (Base::SrcTableNode::iterator i = m.begin(); i != m.end(); ++i) if (r.cst(i->first, t) != 0) k++; CHECK(k == m.size() && m.size() == n, "only counted histories are listed"); CHECK(any == (n > 0), "whether a word has histories is reported");
  if (logs) { NbestTableNode<Ph> nb; int lim = limit; CHECK(b.getNbestForTrg(t, nb, lim) == (n > 0), "ranked histories are reported when there are any"); CHECK(nb.size() == (lim >= 0 && (size_t)lim < n ? (size_t)lim : n), "ranked histories are all those listed, up to the limit"); double prev = INFINITY; for (NbestTableNode<Ph>::iterator i = nb.begin(); i != nb.end(); ++i) { double v = log(r.cst(i->second, t) / r.cs(i->second)); CHECK(r.cs(i->second) == 0 || fabs((double)i->first - v) < 1e-5, "a ranked history scores its log-probability"); CHECK((double)i->first <= prev, "histories are ranked by score"); prev = i->first; } }
  Base::TrgTableNode w; any = b.getEntriesForSource(s, w); n = 0; if (s.empty()) return; for (size_t i = 0; i < r.g.size(); i++) if (r.g[i].k.size() > 1 && eqp(cut(r.g[i].k), s) && r.g[i].c != 0) { WordIndex o = r.g[i].k.back(); n++; CHECK(w.count(o) == 1, "every word following a history is listed"); im_pair<Count, Count> x = w[o]; CHECKV(near(x.first.get_c_s(), r.cs(s)), "listed words carry the history count"); CHECKV(near(x.second.get_c_st(), r.g[i].c), "listed words carry the n-gram count"); }
  CHECK(w.size() == n, "only counted words are listed"); CHECK(any == (n > 0), "whether a history has words is reported");
  if (logs) { NbestTableNode<WordIndex> nb; CHECK(b.getNbestForSrc(s, nb) == (n > 0), "ranked words are reported when there are any"); CHECK(nb.size() == n, "ranked words are all those listed"); double prev = INFINITY; for (NbestTableNode<WordIndex>::iterator i = nb.begin(); i != nb.end(); ++i) { CHECK(r.cs(s) == 0 || fabs((double)i->first - log(r.cst(s, i->second) / r.cs(s))) < 1e-5, "a ranked word scores its log-probability"); CHECK((double)i->first <= prev, "words are ranked by score"); prev = i->first; } }
}
// the trie also visits prefixes of its n-grams, with count zero
template <class T> static void iterated(T& tab, Ref& r) { size_t n = 0, m = 0; for (typename T::const_iterator i = tab.begin(); i != tab.end() && n < 99; i++, n++) { std::pair<Ph, Count> e = *i; float* c = Ref::at(r.g, e.first); if (!r.shared && !c) { CHECK(e.second.get_c_st() == 0, "iteration gives count zero to n-grams not stored"); continue; } m++; CHECK(c != 0, "iteration visits stored n-grams only"); CHECKV(near(e.second.get_c_st(), *c), "iteration gives the stored counts"); }
  CHECK(m == r.g.size(), "iteration visits every n-gram once"); CHECK(tab.size() == n, "size counts what iteration visits"); }
// what: 0 counts and iteration, 1 probabilities, 2 lists
template <class T> static void history(int what) {
  limit = what == 2 && Gen<T>::shared ? sym::choice("lim", -1, 1) : -1; Face<T> f; Base& b = f.b(); Ref r(Gen<T>::shared); int n = sym::choice("n", 0, NOPS); Ph s; WordIndex t = 0; bool logs = what && Gen<T>::shared;
  for (int i = 0; i < n; i++) { int op = sym::choice("op", i, 0, what == 2 || (what && NOPS < 3) ? 1 : i ? 4 : 3); if (op == 4) { b.clear(); r.clear(); continue; } s = Gen<T>::hist("h", i); float d;
    if (op == 3) { d = Gen<T>::count("d", i); b.addSrcInfo(s, d); r.putSrc(s, d); continue; }
    t = Gen<T>::word("t", i); if (op == 0) { d = 2 + i; b.incrCountsOfEntry(s, t, d); r.incr(s, t, d); continue; }
    float c = Gen<T>::count("c", i); if (op == 1) { d = Gen<T>::count("d", i); b.addTableEntry(s, t, info(d, c)); r.putSrc(s, d); r.putNgram(s, t, c); } else { b.addSrcTrgInfo(s, t, c); r.putNgram(s, t, c); } }
  if (sym::choice("q", 0, 1)) { s = Gen<T>::hist("h", 9); t = Gen<T>::word("t", 9); }
  if (what == 0) { agree(b, r, s, t); for (size_t i = 0; i < r.g.size(); i++) agree(b, r, cut(r.g[i].k), r.g[i].k.back()); for (size_t i = 0; i < r.h.size(); i++) CHECKV(near(b.cSrc(r.h[i].k).get_c_s(), r.h[i].c), "histories keep their counts"); iterated(f.own(), r); }
  else if (what == 1) { probs(b, r, s, t, logs); if (logs) inverse(b, r, s, t); else target(b, r, t); }
  else lists(b, r, s, t, logs);
  COVER("history");
}
HARNESS(h_mem_counts) { history<Mem>(0); }
HARNESS(h_mem_probs) { history<Mem>(1); }
HARNESS(h_mem_lists) { history<Mem>(2); }
HARNESS(h_ldb_counts) { history<Db>(0); }
HARNESS(h_ldb_probs) { history<Db>(1); }
HARNESS(h_ldb_lists) { history<Db>(2); }
// the trie backend over few words with whole counts: logarithms and rankings
HARNESS(h_mem_logs) { Mem b; Ref r(false); limit = sym::choice("lim", -1, 1); int n = sym::choice("n", 0, NOPS + 1); for (int i = 0; i < n; i++) { Ph s(sym::choice("h", i, 0, 1), 7); if (s.size() && sym::choice("u", i, 0, 1)) s[0] = 8; WordIndex t = 7 + sym::choice("t", i, 0, 1); if (i == 0 && sym::choice("z", i, 0, 1) == 0) { b.addTableEntry(s, t, info(0, 3)); r.putSrc(s, 0); r.putNgram(s, t, 3); } else { float d = 1 + i; b.incrCountsOfEntry(s, t, d); r.incr(s, t, d); } }
  for (int x = 6; x < 9; x++) for (int y = 7; y < 9; y++) { Ph s(x > 6, x); probs(b, r, s, y, true); inverse(b, r, s, y); lists(b, r, s, y, true); } COVER("logs"); }
// a database closed and opened again keeps every count, the empty history included
HARNESS(h_ldb_load) { std::cerr.setstate(std::ios::failbit); Ref r(true); { LevelDbNgramTable t; t.init("ldb"); for (int i = 0; i < NOPS; i++) { Ph s = Gen<Db>::hist("h", i); WordIndex w = Gen<Db>::word("t", i); float c = Gen<Db>::count("c", i), d = Gen<Db>::count("d", i); t.addTableEntry(s, w, info(d, c)); r.putSrc(s, d); r.putNgram(s, w, c); } }
  LevelDbNgramTable t; CHECK(t.load("ldb") == THOT_OK, "the database is loaded"); for (size_t i = 0; i < r.g.size(); i++) CHECKV(near(t.cSrc(r.g[i].k).get_c_s(), r.g[i].c), "loaded n-grams keep their counts"); CHECKV(near(t.cSrc(Ph()).get_c_s(), r.null), "the count of the empty history is kept"); iterated(t, r); t.drop(); COVER("load"); }

// Word <-> code vocabularies: translation-model vocabularies and language-model encoders.
#include "sym.h"
#include "SingleWordVocab.h"
#include "lm_ienc.h"
#ifndef NW
#define NW 3
#endif
typedef std::vector<std::string> VS;
static bool eqs(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; int ok = 1; for (size_t i = 0; i < a.size(); i++) ok = sym::both(ok, a[i] == b[i]); return ok; }
static std::string word(const char* n, int i, const VS& special) { std::string nm = std::string(n) + char('0' + i); int k = sym::choice((nm + "k").c_str(), 0, (int)special.size()); if (k) return special[k - 1]; return sym::str(nm.c_str(), 1, 2, "ab"); }
// one side of a SingleWordVocab behind a common face
template <bool SRC> struct Side {
  SingleWordVocab& v; Side(SingleWordVocab& x) : v(x) {}
  WordIndex add(const std::string& s) { return SRC ? v.addSrcSymbol(s) : v.addTrgSymbol(s); }
  WordIndex get(const std::string& s) { return SRC ? v.stringToSrcWordIndex(s) : v.stringToTrgWordIndex(s); }
  std::string str(WordIndex w) { return SRC ? v.wordIndexToSrcString(w) : v.wordIndexToTrgString(w); }
  bool has(const std::string& s) { return SRC ? v.existSrcSymbol(s) : v.existTrgSymbol(s); }
  size_t size() { return SRC ? v.getSrcVocabSize() : v.getTrgVocabSize(); }
  std::vector<WordIndex> vec(const VS& s) { return SRC ? v.strVectorToSrcIndexVector(s) : v.strVectorToTrgIndexVector(s); }
  bool print(const char* f) { return SRC ? v.printSrcVocab(f) : v.printTrgVocab(f); }
  bool load(const char* f) { return SRC ? v.loadSrcVocab(f) : v.loadTrgVocab(f); }
  void clear() { v.clear(); }
};
struct Ref { VS w; std::vector<WordIndex> c; int at(const std::string& s) const { for (size_t i = 0; i < w.size(); i++) if (eqs(w[i], s)) return (int)i; return -1; } bool code(WordIndex x) const { for (size_t i = 0; i < c.size(); i++) if (c[i] == x) return true; return false; } };
static Ref fresh() { Ref r; r.w.push_back(NULL_WORD_STR); r.c.push_back(NULL_WORD); r.w.push_back(UNK_WORD_STR); r.c.push_back(UNK_WORD); r.w.push_back(UNUSED_WORD_STR); r.c.push_back(UNUSED_WORD); return r; }
template <class S> static void add(S& v, Ref& r, const std::string& s) { int k = r.at(s); WordIndex c = v.add(s); if (k >= 0) { CHECK(c == r.c[k], "adding a known word returns its code"); COVER("again"); } else { CHECK(!r.code(c), "a new word gets a code no other word has"); r.w.push_back(s); r.c.push_back(c); } }
template <class S> static void agree(S& v, const Ref& r, const std::string& probe) {
  CHECK(v.size() == r.w.size(), "size counts the distinct words");
  for (size_t i = 0; i < r.w.size(); i++) { CHECK(v.get(r.w[i]) == r.c[i], "a word keeps its code"); CHECK(eqs(v.str(r.c[i]), r.w[i]), "a code keeps its word"); CHECK(v.has(r.w[i]), "a word that was added exists"); }
  int k = r.at(probe); CHECK(v.has(probe) == (k >= 0), "exactly the added words exist"); CHECK(v.get(probe) == (k >= 0 ? r.c[k] : UNK_WORD), "an unknown word maps to the unknown code"); WordIndex w = (WordIndex)sym::bits("code", 32); if (!r.code(w)) { CHECK(v.str(w) == UNK_WORD_STR, "an unknown code maps to the unknown word"); COVER("unkcode"); }
}
template <bool SRC> static void vocab() {
  VS sp; sp.push_back(UNK_WORD_STR); sp.push_back(NULL_WORD_STR); SingleWordVocab V; Side<SRC> v(V); Side<!SRC> o(V); Ref r = fresh(); int n = sym::choice("n", 0, NW);
  for (int i = 0; i < n; i++) add(v, r, word("w", i, i == 0 ? sp : VS())); agree(v, r, sym::str("p", 1, 2, "ab")); CHECK(o.size() == 3, "source and target vocabularies are independent"); COVER("history");
}
HARNESS(h_src) { vocab<true>(); }
HARNESS(h_trg) { vocab<false>(); }
template <bool SRC> static void files() {
  SingleWordVocab V, W; Side<SRC> v(V), w(W); Ref r = fresh(); int n = sym::choice("n", 0, NW - 1); for (int i = 0; i < n; i++) add(v, r, word("w", i, VS())); if (sym::choice("dirty", 0, 1)) w.add("zz");
  CHECK(v.print("voc") == 0, "printing succeeds"); CHECK(w.load("voc") == 0, "loading what was printed succeeds"); std::string nw = word("x", 0, VS()); agree(w, r, nw); add(w, r, nw); agree(w, r, "zz"); COVER("reloaded");
  w.clear(); agree(w, fresh(), nw); COVER("cleared"); CHECK(w.load("missing") != 0, "loading a missing file is reported");
}
HARNESS(h_src_file) { files<true>(); }
HARNESS(h_trg_file) { files<false>(); }
template <bool SRC> static void sentence() { // a sentence is coded word by word
  SingleWordVocab V; Side<SRC> v(V); Ref r = fresh(); VS s; int n = sym::choice("n", 0, NW); for (int i = 0; i < n; i++) s.push_back(word("w", i, VS())); std::vector<WordIndex> c = v.vec(s); CHECK(c.size() == s.size(), "a sentence keeps its length when coded");
  for (size_t i = 0; i < c.size(); i++) { CHECK(eqs(v.str(c[i]), s[i]), "each position decodes to its word"); CHECK(c[i] == v.get(s[i]), "each position has the code of its word"); } COVER("sentence");
}
HARNESS(h_src_sentence) { sentence<true>(); }
HARNESS(h_trg_sentence) { sentence<false>(); }

// language-model encoders
template <class E> static WordIndex eadd(E& e, const std::string& s) { WordIndex t; if (!e.HighTrg_to_Trg(s, t)) { t = e.genHTrgCode(s); e.addHTrgCode(s, t); } return t; }
template <class E> static void eaddr(E& e, Ref& r, const std::string& s) { int k = r.at(s); WordIndex c = eadd(e, s); if (k >= 0) CHECK(c == r.c[k], "adding a known symbol returns its code"); else { CHECK(!r.code(c), "a new symbol gets a code no other symbol has"); r.w.push_back(s); r.c.push_back(c); } }
template <class E> static void eagree(E& e, const Ref& r, const std::string& probe) {
  CHECK(e.sizeTrg() == r.w.size() && e.sizeSrc() == r.w.size(), "encoder size counts the distinct symbols"); VS hs; std::vector<WordIndex> cs;
  for (size_t i = 0; i < r.w.size(); i++) { WordIndex t = 77; std::string h; CHECK(e.HighTrg_to_Trg(r.w[i], t) && t == r.c[i], "a symbol keeps its code"); CHECK(e.Trg_to_HighTrg(r.c[i], h) && eqs(h, r.w[i]), "a code keeps its symbol"); hs.push_back(r.w[i]); cs.push_back(r.c[i]); }
  std::vector<WordIndex> s; VS h; CHECK(e.HighSrc_to_Src(hs, s) && s == cs, "a history is coded symbol by symbol"); CHECK(e.Src_to_HighSrc(cs, h) && h.size() == hs.size(), "a history is decoded symbol by symbol"); for (size_t i = 0; i < hs.size(); i++) CHECK(eqs(h[i], hs[i]), "decoded histories are unchanged");
  int k = r.at(probe); WordIndex t; bool f = e.HighTrg_to_Trg(probe, t); CHECK(f == (k >= 0), "exactly the added symbols are coded"); if (f) CHECK(t == r.c[k], "probe returns its code"); hs.push_back(probe); CHECK(e.HighSrc_to_Src(hs, s) == (k >= 0) && s.size() == hs.size(), "an unknown symbol in a history is reported");
  WordIndex w = (WordIndex)sym::bits("code", 32); std::string d; if (!r.code(w)) { CHECK(!e.Trg_to_HighTrg(w, d), "an unknown code is reported"); COVER("ecode"); }
}
static Ref lmfresh() { Ref r; r.w.push_back(UNK_SYMBOL_STR); r.c.push_back(UNK_SYMBOL); r.w.push_back(BOS_STR); r.c.push_back(S_BEGIN); r.w.push_back(EOS_STR); r.c.push_back(S_END); r.w.push_back(SP_SYM1_LM_STR); r.c.push_back(SP_SYM1_LM); return r; }
HARNESS(h_lm) { lm_ienc e; Ref r = lmfresh(); VS sp; sp.push_back(BOS_STR); sp.push_back(UNK_SYMBOL_STR); int n = sym::choice("n", 0, NW); for (int i = 0; i < n; i++) eaddr(e, r, word("w", i, i == 0 ? sp : VS())); std::string p = sym::str("p", 1, 2, "ab"); eagree(e, r, p); WordIndex t; if (!e.HighTrg_to_Trg(p, t)) CHECK(t == UNK_SYMBOL, "language models map unknown words to the unknown symbol"); COVER("lm"); }
HARNESS(h_enc) { vecx_x_incr_enc<std::string, WordIndex> e; Ref r; int n = sym::choice("n", 0, NW); for (int i = 0; i < n; i++) eaddr(e, r, word("w", i, VS())); eagree(e, r, sym::str("p", 1, 2, "ab")); e.clear(); Ref z; eagree(e, z, "a"); COVER("enc"); }
HARNESS(h_enc_file) { vecx_x_incr_enc<std::string, WordIndex> e, f; Ref r; int n = sym::choice("n", 0, NW - 1); for (int i = 0; i < n; i++) eaddr(e, r, sym::str(i ? "w1" : "w0", 1, 2, "ab")); CHECK(e.print("ev") == 0, "encoders print"); CHECK(f.load("ev") == 0, "encoders load"); eagree(f, r, "a"); eaddr(f, r, "zz"); eagree(f, r, "b"); COVER("encfile"); }
HARNESS(h_lm_file) { lm_ienc e, f; Ref r = lmfresh(); int n = sym::choice("n", 0, NW - 1); for (int i = 0; i < n; i++) eaddr(e, r, sym::str(i ? "w1" : "w0", 1, 1, "ab")); CHECK(e.print("lv") == 0 && f.load("lv") == 0, "encoders print and load"); std::string x = sym::str("x", 1, 2, "ab"); eagree(f, r, "zz"); eaddr(f, r, x); eagree(f, r, "zz"); COVER("lmfile"); CHECK(f.load("missing") != 0, "loading a missing encoder file is reported"); }

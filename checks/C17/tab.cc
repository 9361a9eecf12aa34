// Parameter tables of the single-word models against ordinary maps: lexical (memory, LevelDB), HMM and IBM 2 alignment tables.
#include "sym.h"
#include <iostream>
#include "IncrLexTable.h"
#include "IncrLexLevelDbTable.h"
#include "IncrHmmAligTable.h"
#include "IncrIbm2AligTable.h"
#ifndef NO
#define NO 3
#define NF 2
#define FIRST 1
#endif
typedef unsigned U;
// one interface: denominators have a key x, numerators a key x and a key t
struct Lex { IncrLexTable t; static const int X = 3, T = 3; static U w(int i) { static const U v[] = {0, 1, 4}; return v[i]; }
  void num(int x, int y, float f) { t.setLexNumer(w(x), w(y), f); } void den(int x, float f) { t.setLexDenom(w(x), f); } void nd(int x, int y, float n, float d) { t.setLexNumDen(w(x), w(y), n, d); } float gnum(int x, int y, bool& f) { return t.getLexNumer(w(x), w(y), f); } float gden(int x, bool& f) { return t.getLexDenom(w(x), f); }
  void trans(const std::map<std::pair<int, int>, float>& n, int y) { std::set<WordIndex> ref, got; for (auto& p : n) if (p.first.second == y) ref.insert(w(p.first.first)); got.insert(99); bool r = t.getTransForTarget(w(y), got); CHECK(got == ref, "the translations of a word are those stored"); CHECK(r || ref.empty(), "stored translations are reported"); } void open(const char*) {} void drop() {} std::string bin(const char* f) { return f; } };
struct Ldb { IncrLexLevelDbTable t; static const int X = 4, T = 4; static U w(int i) { static const U v[] = {0, 253, 254, 64516}; return v[i]; }
  void num(int x, int y, float f) { t.setLexNumer(w(x), w(y), f); } void den(int x, float f) { t.setLexDenom(w(x), f); } void nd(int x, int y, float n, float d) { t.setLexNumDen(w(x), w(y), n, d); } float gnum(int x, int y, bool& f) { return t.getLexNumer(w(x), w(y), f); } float gden(int x, bool& f) { return t.getLexDenom(w(x), f); }
  void trans(const std::map<std::pair<int, int>, float>& n, int y) { std::set<WordIndex> ref, got; for (auto& p : n) if (p.first.second == y) ref.insert(w(p.first.first)); got.insert(99); bool r = t.getTransForTarget(w(y), got); CHECK(got == ref, "the translations of a word are those stored"); CHECK(r || ref.empty(), "stored translations are reported"); } void open(const char* f) { t.init(f); } void drop() { t.drop(); } };
struct Hmm { IncrHmmAligTable t; static const int X = 4, T = 3; static aSourceHmm k(int x) { static const U p[] = {0, 1, 1, 2}, l[] = {2, 2, 1, 0}; aSourceHmm a; a.prev_i = p[x]; a.slen = l[x]; return a; }
  void num(int x, int y, float f) { t.setAligNumer(k(x), y, f); } void den(int x, float f) { t.setAligDenom(k(x), f); } void nd(int x, int y, float n, float d) { t.setAligNumDen(k(x), y, n, d); } float gnum(int x, int y, bool& f) { return t.getAligNumer(k(x), y, f); } float gden(int x, bool& f) { return t.getAligDenom(k(x), f); } void trans(const std::map<std::pair<int, int>, float>&, int) {} void open(const char*) {} void drop() {} };
struct Ibm2 { IncrIbm2AligTable t; static const int X = 5, T = 3; static aSource k(int x) { static const U j[] = {1, 1, 1, 2, 2}, s[] = {1, 1, 2, 1, 1}, l[] = {2, 3, 1, 1, 2}; aSource a; a.j = j[x]; a.slen = s[x]; a.tlen = l[x]; return a; }
  void num(int x, int y, float f) { t.setAligNumer(k(x), y, f); } void den(int x, float f) { t.setAligDenom(k(x), f); } void nd(int x, int y, float n, float d) { t.setAligNumDen(k(x), y, n, d); } float gnum(int x, int y, bool& f) { return t.getAligNumer(k(x), y, f); } float gden(int x, bool& f) { return t.getAligDenom(k(x), f); } void trans(const std::map<std::pair<int, int>, float>&, int) {} void open(const char*) {} void drop() {} };
typedef std::map<std::pair<int, int>, float> Num; typedef std::map<int, float> Den;
template <class A> static void agree(A& a, const Num& n, const Den& d) {
  for (int x = 0; x < A::X; x++) { bool f = false; float v = a.gden(x, f); bool in = d.count(x); CHECK(f == in, "a denominator is reported exactly when stored"); CHECKV(v == (in ? d.at(x) : 0), "a denominator has the last value stored, zero otherwise");
    for (int y = 0; y < A::T; y++) { std::pair<int, int> p(x, y); f = false; v = a.gnum(x, y, f); in = n.count(p); CHECK(f == in, "a numerator is reported exactly when stored"); CHECKV(v == (in ? n.at(p) : 0), "a numerator has the last value stored, zero otherwise"); } }
  for (int y = 0; y < A::T; y++) a.trans(n, y); }
// a history of updates with symbolic values
template <class A> static void history(bool symbolic) {
  std::cerr.setstate(std::ios::failbit); A a; a.open("tabdb"); Num n; Den d; int k = sym::choice("n", 0, NO); static const float vals[] = {0, -1.5f, -0.0069f, 1e30f};
  for (int i = 0; i < k; i++) { float v, u; if (symbolic) { v = (float)sym::fix("v", i, -4096, 4096, 4); u = (float)sym::fix("u", i, -4096, 4096, 4); } else { v = vals[i % 4]; u = vals[(i + 2) % 4]; } int first = i == 0 && FIRST; int op = first ? 2 : sym::choice("op", i, 0, 3); if (op == 3) { a.t.clear(); n.clear(); d.clear(); continue; } int x = sym::choice("x", i, 0, first ? 1 : A::X - 1), y = first ? 1 : op == 1 ? 0 : sym::choice("y", i, 0, A::T - 1); if (op == 0) { a.num(x, y, v); n[std::make_pair(x, y)] = v; } else if (op == 1) { a.den(x, v); d[x] = v; } else { a.nd(x, y, v, u); n[std::make_pair(x, y)] = v; d[x] = u; } }
  agree(a, n, d); a.drop(); COVER("history"); }
HARNESS(h_lex) { history<Lex>(true); }
HARNESS(h_hmm) { history<Hmm>(true); }
HARNESS(h_ibm2) { history<Ibm2>(true); }
HARNESS(h_ldb) { history<Ldb>(false); }
// written tables load back: pairs with their denominators, into a table that held something else
template <class A> static void fill(A& a, Num& n, Den& d) { static const float vals[] = {0, -1.5f, -99999.f, -0.0078125f}; int k = sym::choice("n", 0, NF); for (int i = 0; i < k; i++) { int x = sym::choice("x", i, 0, A::X - 1), y = sym::choice("y", i, 0, A::T - 1); float v = vals[(i + sym::choice("v", 0, 1)) % 4], u = vals[i + 1]; a.nd(x, y, v, u); n[std::make_pair(x, y)] = v; d[x] = u; } }
template <class A> static void files() {
  std::cerr.setstate(std::ios::failbit); A a, b, c; Num n; Den d; fill(a, n, d); b.nd(1, 1, 7, 8); b.num(2, 0, 9);
  CHECK(a.t.print("tab.bin") == THOT_OK && b.t.load("tab.bin") == THOT_OK, "a written table loads back"); agree(b, n, d);
  CHECK(b.t.printPlainText("tab.txt") == THOT_OK && c.t.loadPlainText("tab.txt") == THOT_OK, "a table written as text loads back"); agree(c, n, d); agree(a, n, d); CHECK(a.t.load("missing") == THOT_ERROR, "a missing file is an error"); COVER("files"); }
HARNESS(h_lexfile) { files<Lex>(); }
HARNESS(h_hmmfile) { files<Hmm>(); }
HARNESS(h_ibm2file) { files<Ibm2>(); }
// the LevelDB table reads the binary files of the in-memory table, writes them, and opens its own database again
HARNESS(h_ldbfile) {
  std::cerr.setstate(std::ios::failbit); Ldb a, b; Lex m; Num n; Den d; a.t.init("ldba"); fill(a, n, d); CHECK(a.t.print("ldbb") == THOT_OK, "a LevelDB table is written"); CHECK(b.t.load("ldbb") == THOT_OK, "a LevelDB table loads the file"); agree(b, n, d); b.drop();
  Num mn; Den md; bool small = true; for (auto& p : n) if (p.first.first > 2 || p.first.second > 2) small = false; if (small) { CHECK(m.t.load("ldbb.hmm_lexnd") == THOT_OK, "the in-memory table loads the file"); for (auto& p : n) { bool f; CHECK(m.t.getLexNumer(Ldb::w(p.first.first), Ldb::w(p.first.second), f) == p.second && f && m.t.getLexDenom(Ldb::w(p.first.first), f) == d[p.first.first], "the in-memory table reads what the LevelDB table wrote"); } COVER("crossed"); }
  delete a.t.db; a.t.db = 0; CHECK(a.t.load("ldba") == THOT_OK, "a LevelDB table opens again"); agree(a, n, d); a.drop(); COVER("ldb files");
}

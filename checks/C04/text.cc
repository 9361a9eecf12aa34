// Field splitting, joining, prefix tests and awk-style line reading against character-level references.
#include "sym.h"
#include "StrProcUtils.h"
#include "AwkInputStream.h"
#ifndef LEN
#define LEN 6
#endif
#ifndef FLEN
#define FLEN 5
#endif
typedef std::vector<std::string> VS;
static VS fields(const std::string& s, bool tab) { VS v; std::string w; for (size_t i = 0; i <= s.size(); i++) { bool sep = i == s.size() || s[i] == ' ' || (tab && s[i] == '\t'); if (sep) { if (!w.empty()) v.push_back(w); w.clear(); } else w += s[i]; } return v; }
static bool eqs(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; int ok = 1; for (size_t i = 0; i < a.size(); i++) ok = sym::both(ok, a[i] == b[i]); return ok; }
static bool eqv(const VS& a, const VS& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!eqs(a[i], b[i])) return false; return true; }
static VS words(const char* n, int maxw, int maxl) { int k = sym::choice(n, 0, maxw); VS v; for (int i = 0; i < k; i++) v.push_back(sym::str((std::string(n) + char('0' + i)).c_str(), 1, maxl, "abc")); return v; }

HARNESS(h_split) {
  std::string s = sym::str("s", 0, LEN, "a \tb");
  CHECK(eqv(StrProcUtils::stringToStringVector(s), fields(s, true)), "splitting returns exactly the maximal runs of non-blank characters"); COVER("split");
  CHECK(eqv(StrProcUtils::charItemsToVector(s.c_str()), fields(s, false)), "item splitting returns exactly the runs between spaces");
}
HARNESS(h_split_any) { // arbitrary bytes
  int n = sym::choice("n", 0, LEN - 2); std::string s; for (int i = 0; i < n; i++) { char c = (char)sym::bits("c", i, 8); ASSUME(c != 0); s += c; }
  CHECK(eqv(StrProcUtils::stringToStringVector(s), fields(s, true)), "splitting keeps every byte that is not a blank"); COVER("bytes");
}
HARNESS(h_join) {
  VS v = words("w", 3, 3); std::string j = StrProcUtils::stringVectorToString(v); size_t len = 0, tot = 0; for (size_t i = 0; i < v.size(); i++) { len += v[i].size() + (i > 0); tot += v[i].size(); }
  CHECK(j.size() == len, "joining puts one space between words"); CHECK(eqv(StrProcUtils::stringToStringVector(j), v), "joining then splitting gives the words back");
  std::string k = StrProcUtils::stringVectorToStringWithoutSpaces(v), e; for (size_t i = 0; i < v.size(); i++) e += v[i]; CHECK(k.size() == tot && eqs(k, e), "joining without spaces concatenates"); COVER("join");
}
HARNESS(h_prefix) {
  std::string a = sym::str("a", 0, 3, "ab "), b = sym::str("b", 0, 4, "ab "); bool p = a.size() <= b.size() && eqs(a, b.substr(0, a.size() <= b.size() ? a.size() : 0));
  CHECK(StrProcUtils::isPrefix(a, b) == p, "isPrefix is the prefix order"); if (p) COVER("prefix");
}
HARNESS(h_prefix_vec) {
  VS a = words("a", 2, 2), b = words("b", 3, 2); bool p = a.size() <= b.size(); for (size_t i = 0; p && i < a.size(); i++) { if (eqs(a[i], b[i])) continue; p = i + 1 == a.size() && a[i].size() <= b[i].size() && eqs(a[i], b[i].substr(0, a[i].size())); }
  CHECK(StrProcUtils::isPrefixStrVec(a, b) == p, "a word sequence is a prefix up to a partial last word"); if (p && !a.empty()) COVER("wordprefix");
}
HARNESS(h_last) {
  std::string s = sym::str("s", 0, LEN - 1, "ab "); VS f = fields(s, false); std::string l = StrProcUtils::getLastWord(s);
  CHECK(eqs(l, f.empty() ? std::string() : f.back()), "the last word is the last field");
  bool b = !s.empty() && s[s.size() - 1] == ' '; CHECK(StrProcUtils::lastCharIsBlank(s) == b, "trailing blank is detected"); std::string r = StrProcUtils::removeLastBlank(s); CHECK(r.size() == s.size() - b && eqs(r, s.substr(0, s.size() - b)), "exactly one trailing blank is removed"); CHECK(eqs(StrProcUtils::addBlank(s), s + " "), "one blank is appended"); if (b) COVER("blank");
}
struct Line { std::string t; };
static VS lines(const std::string& s) { VS v; std::string l; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\n') { v.push_back(l); l.clear(); } else l += s[i]; } if (!l.empty()) v.push_back(l); return v; }
static void same(AwkInputStream& a, const VS& ls, size_t from) {
  for (size_t i = from; i < ls.size(); i++) {
    CHECK(a.getln(), "every line of the file is delivered"); CHECK(a.FNR == i + 1, "records are numbered from one"); CHECK(eqs(a.dollar(0), ls[i]), "record zero is the line without its terminator");
    VS f = fields(ls[i], false); CHECK(a.NF == f.size(), "NF counts the fields of the line"); for (size_t j = 0; j < f.size(); j++) CHECK(eqs(a.dollar(j + 1), f[j]), "each field is delivered unchanged"); CHECK(a.dollar(f.size() + 1) == "", "fields past the last are empty"); CHECK(a.NF == f.size(), "reading fields leaves NF alone"); }
  CHECK(!a.getln(), "no line is invented after the last");
}
HARNESS(h_awk) {
  std::string s = sym::str("s", 0, FLEN, "a \nb"); sym::putFile("in.txt", s); VS ls = lines(s);
  AwkInputStream a; CHECK(!a.getln(), "an unopened stream delivers nothing"); CHECK(a.open("in.txt") == 0, "opening an existing file succeeds"); same(a, ls, 0); COVER("read");
  CHECK(a.rwd() == 0, "rewinding succeeds"); same(a, ls, 0); a.close(); CHECK(!a.getln(), "a closed stream delivers nothing");
}
HARNESS(h_awk_copy) { // copying a stream reproduces its position
  std::string s = sym::str("s", 1, FLEN - 1, "a \n"); sym::putFile("in.txt", s); VS ls = lines(s); AwkInputStream a; a.open("in.txt"); size_t k = (size_t)sym::choice("k", 0, 2); if (k > ls.size()) k = ls.size(); for (size_t i = 0; i < k; i++) a.getln();
  AwkInputStream b; b = a; same(b, ls, k); same(a, ls, k); COVER("copy");
}
HARNESS(h_awk_reuse) { // one object reading two files in turn
  std::string s = sym::str("s", 0, FLEN - 2, "a \n"), t = sym::str("t", 0, FLEN - 2, "b \n"); sym::putFile("one.txt", s); sym::putFile("two.txt", t); AwkInputStream a; a.open("one.txt"); if (sym::choice("firstline", 0, 1)) a.getln(); a.open("two.txt"); same(a, lines(t), 0);
  AwkInputStream m; CHECK(m.open("absent.txt") != 0, "opening a missing file fails"); CHECK(!m.getln(), "a stream that failed to open delivers nothing"); COVER("reuse");
}
HARNESS(h_libdir) {
  std::string v = StrProcUtils::getLibDirVarNameValue(), rest = sym::str("r", 0, 3, "/a$"), pre = sym::str("p", 0, 2, "a$(");
  CHECK(StrProcUtils::expandLibDirIfFound(v + rest) == StrProcUtils::getLibDir() + rest, "a leading library-directory variable is expanded and the rest kept"); if (!pre.empty()) CHECK(StrProcUtils::expandLibDirIfFound(pre + v + rest) == pre + v + rest, "a variable not at the start is left alone"); CHECK(eqs(StrProcUtils::expandLibDirIfFound(rest), rest), "a name without the variable is left alone"); COVER("libdir");
}
HARNESS(h_floats) { // numbers written as decimals are read back in order
  VS v; std::vector<float> e; int n = sym::choice("n", 0, 3); for (int i = 0; i < n; i++) { int k = sym::choice("k", i, 0, 3); static const char* t[] = {"0", "1.5", "-2.25", "1e3"}; static const float x[] = {0, 1.5f, -2.25f, 1000}; v.push_back(t[k]); e.push_back(x[k]); }
  std::vector<float> f = StrProcUtils::strVecToFloatVec(v); CHECK(f.size() == e.size(), "one number per word"); for (size_t i = 0; i < e.size(); i++) CHECK(f[i] == e[i], "numbers are read in order"); COVER("floats");
}

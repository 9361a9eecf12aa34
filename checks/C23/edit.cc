// Edit distances over strings, word vectors and word vectors with character-level costs, whole
// and for an incomplete prefix; distances, operation counts, scripts and the incremental rows.
#include "sym.h"
#include "EditDistForStr.h"
#include "EditDistForVecString.h"
#ifndef N
#define N 3
#endif
#ifndef W
#define W 2
#endif
#ifndef WL
#define WL 2
#endif
typedef std::vector<std::string> VS; typedef std::vector<unsigned> VU; typedef std::vector<double> VD;
static double mn(double a, double b) { return __sym_ited(a < b, a, b); }
struct Cost { double h, i, s, d; };
static Cost costs() { Cost c; c.h = 0; c.i = sym::fix("ins", 1, 4, 1); c.s = sym::fix("sub", 1, 4, 1); c.d = sym::fix("del", 1, 4, 1); return c; }
static Cost anyCosts() { Cost c = costs(); c.h = sym::fix("hit", 0, 2, 1); ASSUME(c.h <= c.s); ASSUME(c.h < c.i + c.d); return c; }
// textbook recurrence, with the free deletions of the tail of x once y is used up
template <class O, class SUB, class INS, class DEL> static double ref(const O& x, const O& y, bool freeTail, SUB sub, INS ins, DEL del) {
  std::vector<VD> m(x.size() + 1, VD(y.size() + 1, 0.0));
  for (size_t i = 0; i <= x.size(); i++) for (size_t j = 0; j <= y.size(); j++) { if (!i && !j) continue; double b = 1e6; if (i && j) b = mn(b, m[i-1][j-1] + sub(i-1, j-1)); if (i) b = mn(b, m[i-1][j] + del(i-1)); if (j) b = mn(b, m[i][j-1] + ins(j-1)); m[i][j] = b; }
  double r = m[x.size()][y.size()]; if (freeTail) for (size_t i = 0; i < x.size(); i++) r = mn(r, m[i][y.size()]); return r;
}
static double refStr(const std::string& x, const std::string& y, const Cost& c, bool freeTail) { return ref(x, y, freeTail, [&](size_t i, size_t j) { return __sym_ited(x[i] == y[j], c.h, c.s); }, [&](size_t) { return c.i; }, [&](size_t) { return c.d; }); }
// what a script does to x: its result, its cost, and how much of x it used
static bool play(const std::string& x, const std::string& y, const VU& ops, const Cost& c, double& cost, size_t& used) {
  size_t i = 0, j = 0; cost = 0; for (size_t k = 0; k < ops.size(); k++) switch (ops[k]) {
    case HIT_OP: if (i >= x.size() || j >= y.size() || x[i] != y[j]) return false; i++; j++; cost += c.h; break;
    case SUBST_OP: if (i >= x.size() || j >= y.size() || x[i] == y[j]) return false; i++; j++; cost += c.s; break;
    case INS_OP: if (j >= y.size()) return false; j++; cost += c.i; break;
    case DEL_OP: if (i >= x.size()) return false; i++; cost += c.d; break;
    default: return false; }
  used = i; return j == y.size();
}
HARNESS(h_str) {
  Cost c = anyCosts(); std::string x = sym::str("x", 0, N, "abc"), y = sym::str("y", 0, N, "abc"); EditDistForStr e; e.setErrorModel(c.h, c.i, c.s, c.d);
  double r = refStr(x, y, c, false); CHECK(e.calculateEditDist(x, y) == r, "string distance is the cost of the cheapest script");
  unsigned h, i, s, d; CHECK(e.calculateEditDistOps(x, y, h, i, s, d) == r, "asking for the operations gives the same distance"); CHECK(h + s + d == x.size() && h + s + i == y.size(), "the counted operations use every symbol of both strings once"); CHECK(c.h * h + c.i * i + c.s * s + c.d * d == r, "the counted operations cost the distance"); COVER("str");
}
HARNESS(h_str_ops) {
  Cost c = anyCosts(); std::string x = sym::str("x", 0, N, "abc"), y = sym::str("y", 0, N, "abc"); EditDistForStr e; e.setErrorModel(c.h, c.i, c.s, c.d); VU ops(1, 7u); double cost; size_t used;
  double r = refStr(x, y, c, false); CHECK(e.calculateEditDistPrefixOpsNoPrefDel(x, y, ops) == r, "without free deletions the prefix distance is the distance"); CHECK(play(x, y, ops, c, cost, used) && used == x.size() && cost == r, "the script turns the whole of x into y at the reported cost"); COVER("ops");
}
HARNESS(h_str_pref) {
  Cost c = anyCosts(); std::string x = sym::str("x", 0, N, "abc"), y = sym::str("y", 1, N, "abc"); EditDistForStr e; e.setErrorModel(c.h, c.i, c.s, c.d); VU ops(1, 7u); double cost; size_t used;
  double r = refStr(x, y, c, true); CHECK(e.calculateEditDistPrefix(x, y) == r, "prefix distance is that of the closest prefix of x"); CHECK(e.calculateEditDistPrefixOps(x, y, ops) == r, "asking for the operations gives the same prefix distance"); CHECK(play(x, y, ops, c, cost, used) && cost == r, "the script turns a prefix of x into y at the reported cost"); COVER("pref");
}
HARNESS(h_vec) { // sequences of plain symbols
  Cost c = anyCosts(); int n = sym::choice("n", 0, N), m = sym::choice("m", 0, N); VU x, y; for (int i = 0; i < n; i++) x.push_back((unsigned)sym::range("x", i, 0, 3)); for (int i = 0; i < m; i++) y.push_back((unsigned)sym::range("y", i, 0, 3)); EditDistForVec<unsigned> e; e.setErrorModel(c.h, c.i, c.s, c.d);
  double r = ref(x, y, false, [&](size_t i, size_t j) { return __sym_ited(x[i] == y[j], c.h, c.s); }, [&](size_t) { return c.i; }, [&](size_t) { return c.d; }); unsigned h, i, s, d; CHECK(e.calculateEditDist(x, y) == r, "sequence distance is the cost of the cheapest script"); CHECK(e.calculateEditDistOps(x, y, h, i, s, d) == r, "asking for operations gives the same sequence distance"); CHECK(h + s + d == x.size() && h + s + i == y.size(), "the counted operations use every element of both sequences once"); CHECK(c.h * h + c.i * i + c.s * s + c.d * d == r, "the counted operations cost the sequence distance"); COVER("vec");
}
static VS words(const char* nm, int lo, int hi) { VS v; int n = sym::choice(nm, lo, hi); for (int i = 0; i < n; i++) v.push_back(sym::str((std::string(nm) + char('0' + i)).c_str(), 1, WL, "ab")); return v; }
static double wsub(const std::string& x, const std::string& y, const Cost& c, bool pref) { return refStr(x, y, c, pref); }
static double refVec(const VS& x, const VS& y, const Cost& c, bool freeTail, bool lastPref) { return ref(x, y, freeTail, [&](size_t i, size_t j) { return wsub(x[i], y[j], c, lastPref && j + 1 == y.size()); }, [&](size_t j) { return c.i * (double)y[j].size(); }, [&](size_t i) { return c.d * (double)x[i].size(); }); }
static Cost fewCosts() { Cost c; c.h = 0; c.i = sym::fix("ins", 1, 2, 0); c.s = sym::fix("sub", 1, 2, 0); c.d = 1; return c; }
HARNESS(h_wvec) {
  Cost c = fewCosts(); VS x = words("x", 0, W), y = words("y", 0, W); EditDistForVecString e; e.setErrorModel(c.h, c.i, c.s, c.d); double r = refVec(x, y, c, false, false); CHECK(e.calculateEditDist(x, y) == r, "word-vector distance charges words their character-level distance"); unsigned h, i, s, d; CHECK(e.calculateEditDistOps(x, y, h, i, s, d) == r && h + s + d == x.size() && h + s + i == y.size(), "the counted word operations use every word once"); COVER("wvec");
}
HARNESS(h_wpref) {
  Cost c = fewCosts(); VS x = words("x", 0, W), y = words("y", 1, W); bool complete = sym::choice("complete", 0, 1), nopd = sym::choice("nopd", 0, 1); VS yb = y; if (complete) yb.back() += " "; EditDistForVecString e; e.setErrorModel(c.h, c.i, c.s, c.d); VU wo(1, 7u), co; double r = refVec(x, y, c, !nopd, !complete);
  double got = nopd ? e.calculateEditDistPrefixOpsNoPrefDel(x, yb, wo, co) : e.calculateEditDistPrefixOps(x, yb, wo, co); CHECK(got == r, "word prefix distance is that of the closest prefix"); if (!nopd) CHECK(e.calculateEditDistPrefix(x, yb) == r, "word prefix distance does not depend on asking for operations");
  size_t i = 0, j = 0; double cost = 0; bool ok = true; size_t lastHit = 1000; for (size_t k = 0; k < wo.size() && ok; k++) switch (wo[k]) {
    case HIT_OP: case SUBST_OP: if (i >= x.size() || j >= y.size()) { ok = false; break; } { bool pre = !complete && j + 1 == y.size(), eq = pre ? x[i].compare(0, y[j].size(), y[j]) == 0 : x[i] == y[j]; if (eq != (wo[k] == HIT_OP)) ok = false; if (eq && j + 1 == y.size()) lastHit = i; cost += wsub(x[i], y[j], c, pre); } i++; j++; break;
    case INS_OP: if (j >= y.size()) ok = false; else cost += c.i * (double)y[j++].size(); break;
    case DEL_OP: if (i >= x.size()) ok = false; else cost += c.d * (double)x[i++].size(); break;
    default: ok = false; }
  CHECK(ok && j == y.size() && (!nopd || i == x.size()), "the word script turns a prefix of x into y"); CHECK(ok ? cost == r : true, "the word script costs the distance");
  if (ok && !complete && lastHit < x.size()) { double cc; size_t used; CHECK(play(x[lastHit], y.back(), co, c, cc, used) && cc == 0, "the character script of the last word spells the prefix"); COVER("hit"); } COVER("wpref");
}
HARNESS(h_incr) { // rows grown one x word at a time and y in two pieces: the same numbers as from scratch
  Cost c = fewCosts(); VS x = words("x", 0, W), y = words("y", 1, W); int cut = sym::choice("cut", 0, W - 1); ASSUME(cut < (int)y.size()); EditDistForVecString e; e.setErrorModel(c.h, c.i, c.s, c.d); bool complete = sym::choice("complete", 0, 1); VS yb = y; if (complete) yb.back() += " ";
  VS part[2]; part[0] = VS(y.begin(), y.begin() + cut); for (size_t k = 0; k < part[0].size(); k++) part[0][k] += " "; part[1] = VS(yb.begin() + cut, yb.end());
  std::vector<std::vector<Score> > row(x.size() + 1); std::vector<std::vector<int> > op(x.size() + 1); std::vector<int> o; row[0].push_back(0); for (size_t i = 0; i < x.size(); i++) { double d0 = row[i][0] + e.calculateEditDist(VS(1, x[i]), VS()); row[i + 1].push_back(d0); }
  for (int p = 0; p < 2; p++) { if (part[p].empty()) continue; std::vector<Score> nw; VS bare = part[p]; for (size_t k = 0; k < bare.size(); k++) bare[k] = StrProcUtils::removeLastBlank(bare[k]); e.incrEditDistPrefixFirstRow(bare, row[0], nw); row[0] = nw; for (size_t i = 0; i < x.size(); i++) { VS pp = bare; if (p == 0 || complete) pp.back() += " "; e.incrEditDistPrefix(x[i], pp, row[i], row[i + 1], o); CHECK(o.size() == pp.size(), "one operation per new prefix word"); } }
  CHECK(row[x.size()].size() == y.size() + 1, "a row has one score per prefix length"); CHECK(row[x.size()].back() == refVec(x, y, c, false, !complete), "rows grown incrementally end in the distance"); COVER("incr");
}

// Counts, log counts, probabilities and the log-domain arithmetic they rest on.
#include "sym.h"
#include <sstream>
#include <math.h>
#include "Prob.h"
#include "Count.h"
#include "LogCount.h"
#include "MathFuncs.h"
#ifndef G
#define G 12
#endif
static bool near(double a, double b, double rel) { double d = fabs(a - b), m = fabs(a) > fabs(b) ? fabs(a) : fabs(b); return d <= rel * (m > 1 ? m : 1); }
static double grid(const char* n) { return sym::concd(sym::fix(n, -G, G, 1)); }

HARNESS(h_count) { // exact on counts that a float represents
  double a = sym::fix("a", -100000, 100000, 2), b = sym::fix("b", -100000, 100000, 2); Count x(a), y(b);
  CHECK((double)Count() == 0, "a fresh count is zero"); CHECK((double)x == a && (float)y == (float)b, "a count holds its value");
  CHECK((double)(x + y) == a + b && (double)(x - y) == a - b && (double)(x + b) == a + b && (double)(x - b) == a - b, "counts add and subtract exactly");
  Count s(x); s += y; CHECK((double)s == a + b, "adding in place adds"); s -= y; CHECK((double)s == a, "subtracting in place undoes adding"); s += b; s -= b; CHECK((double)s == a, "plain numbers add to counts"); s.incr_count(y); CHECK((double)s == a + b, "counts can be incremented by counts"); s.incr_count(b); s.incr_count((float)b); CHECK((double)s == a + b + b + b, "counts can be incremented by numbers"); s.set_count(b); CHECK((double)s == b && (double)s.get_c_s() == b && (double)s.get_c_st() == b, "set counts are read back"); s.set_count(x); CHECK((double)s == a, "a count can be set from a count");
  CHECK((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "counts compare as their values"); CHECK(greaterCount()(x, y) == (a > b), "the count order functor is greater-than"); CHECK((double)(x + y) == (double)(y + x), "count addition commutes"); COVER("count");
}
HARNESS(h_count_mul) { double a = sym::fix("a", -300, 300, 1), b = sym::fix("b", -300, 300, 1); Count x(a), y(b); CHECK((double)(x * y) == a * b && (double)(x * b) == a * b, "counts multiply exactly"); Count s(x); s *= y; CHECK((double)s == a * b, "multiplying in place multiplies"); Prob p(a), q(b); CHECK((double)(p * q) == a * b, "probabilities multiply"); p *= q; CHECK((double)p == a * b, "probabilities multiply in place"); LgProb l(a), m(b); CHECK((double)(l * m) == a * b && (double)(l * b) == a * b, "log-probabilities scale"); COVER("mul"); }
HARNESS(h_prob) {
  double a = sym::fix("a", -100000, 100000, 4), b = sym::fix("b", -100000, 100000, 4); Prob x(a), y(b); LgProb l(a), m(b);
  CHECK((double)(x + y) == a + b && (double)(x - y) == a - b && (double)(l + m) == a + b && (double)(l - m) == a - b, "probabilities and log-probabilities add and subtract exactly"); Prob s(x); s += y; CHECK((double)s == a + b, "probabilities accumulate"); s -= b; CHECK((double)s == a, "probabilities subtract in place"); LgProb t(l); t += m; t += b; CHECK((double)t == a + b + b, "log-probabilities accumulate"); t -= m; t -= b; CHECK((double)t == a, "log-probabilities subtract in place");
  CHECK((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "probabilities compare as their values"); CHECK((l < m) == (a < b) && (l > m) == (a > b) && (l <= m) == (a <= b) && (l >= m) == (a >= b) && (l == m) == (a == b) && (l != m) == (a != b), "log-probabilities compare as their values"); CHECK(greaterProb()(x, y) == (a > b) && greaterLgProb()(l, m) == (a > b), "order functors are greater-than"); CHECK((double)x.get_p() == a && (double)l.get_lp() == a, "reading in the same domain is the identity"); COVER("prob");
}
HARNESS(h_any_compare) { // every pair of finite doubles
  uint64_t u = sym::bits("u", 64), v = sym::bits("v", 64); ASSUME(((u >> 52) & 2047) != 2047); ASSUME(((v >> 52) & 2047) != 2047); double a, b; memcpy(&a, &u, 8); memcpy(&b, &v, 8); Prob x(a), y(b); CHECK((x < y) + (x == y) + (x > y) == 1, "any two finite probabilities are ordered one way"); CHECK((x <= y) == !(x > y) && (x >= y) == !(x < y) && (x != y) == !(x == y), "the comparisons agree with each other"); LgProb l(a), m(b); CHECK((l < m) + (l == m) + (l > m) == 1 && (l <= m) == !(l > m) && (l >= m) == !(l < m) && (l != m) == !(l == m), "log-probability comparisons agree with each other"); COVER("finite");
}
HARNESS(h_domains) { // probability <-> log probability
  int k = sym::conc((int)sym::range("k", 1, 64)); double p = k / 64.0; Prob q(p); LgProb l = q.get_lp(); CHECK(near((double)l, log(p), 1e-12), "get_lp is the logarithm"); CHECK(near((double)l.get_p(), p, 1e-12), "probability survives the trip through the log domain"); Count c(3 * k); CHECK(near(c.get_lc_s(), log(3.0 * k), 1e-5) && near(c.get_lc_st(), log(3.0 * k), 1e-5), "log counts are logarithms"); c.set_logcount((double)l); CHECK(near((double)c, p, 1e-6), "counts can be set in the log domain"); c.incr_logcount(log(2.0)); CHECK(near((double)c, p + 2, 1e-6), "counts can be incremented in the log domain");
  LogCount z; CHECK((double)z.get_c_s() == 0 && (double)z.get_c_st() == 0, "a fresh log count is zero"); z.incr_count((double)k); CHECK(near(z.get_c_s(), k, 1e-4), "log counts accumulate counts"); z.incr_count(Count(2)); z.incr_count(0); z.incr_logcount(0.0); CHECK(near(z.get_c_st(), k + 3, 1e-4), "log counts accumulate counts given in any form"); CHECK(near(z.get_lc_s(), log(k + 3.0), 1e-4), "log counts are read in the log domain"); z.set_logcount((double)l); CHECK(near(z.get_c_s(), p, 1e-4), "log counts can be set in the log domain"); COVER("domains");
}
HARNESS(h_lns) {
  double x = grid("x"), y = grid("y"), s = MathFuncs::lns_sumlog(x, y); CHECK(near(s, log(exp(x) + exp(y)), 1e-12), "log-domain sum is the log of the sum"); CHECK(s == MathFuncs::lns_sumlog(y, x), "log-domain sum is symmetric"); CHECK(s >= (x > y ? x : y), "log-domain sum is at least its largest term"); CHECK(near(MathFuncs::lns_sumlog_float((float)x, (float)y), s, 1e-6), "the float sum agrees with the double one");
  CHECK(near(MathFuncs::lns_sum(exp(x), exp(y)), s, 1e-9) && near(MathFuncs::lns_sum_float((float)exp(x), (float)exp(y)), s, 1e-5), "summing logs of plain numbers agrees"); CHECK(near(MathFuncs::lns_sublog(s, y), x, 1e-7), "log-domain subtraction undoes addition"); if (x - y > -4) CHECK(near(MathFuncs::lns_sublog_float((float)s, (float)y), x, 1e-3) && near(MathFuncs::lns_sub(exp(s), exp(y)), x, 1e-6), "float and plain subtraction undo addition"); CHECK(MathFuncs::lns_sumlog(x, SMALL_LG_NUM) == x, "the log of zero is neutral"); CHECK(near(MathFuncs::lns_sumlog(x + 800, y + 800), s + 800, 1e-9) && near(MathFuncs::lns_sumlog(x - 800, y - 800), s - 800, 1e-9), "sums outside the range of plain numbers do not overflow"); COVER("lns");
}
HARNESS(h_combinatorics) {
  int m = sym::conc((int)sym::range("m", 0, 20)), n = sym::conc((int)sym::range("n", 0, 20)); double f = 1; for (int i = 2; i <= m; i++) f *= i; CHECK(near(exp(MathFuncs::logFactorial(m)) / f, 1, 1e-9), "logFactorial is the log of the factorial");
  if (n <= m) { double c = 1; for (int i = 1; i <= n; i++) c = c * (m - n + i) / i; CHECK(near(exp(MathFuncs::logCombmn(m, n)) / c, 1, 1e-9), "logCombmn is the log of the binomial"); CHECK(near(exp(MathFuncs::logNumbPermsOfTwoElems(m, n)) / c, 1, 1e-9), "log number of permutations of two kinds of elements is the log of the binomial"); COVER("comb"); }
}
HARNESS(h_distributions) {
  int k = sym::conc((int)sym::range("k", 1, 8)), n = sym::conc((int)sym::range("n", 0, 8)); double lam = k / 2.0, p = k / 10.0, f = 1; for (int i = 2; i <= n; i++) f *= i;
  CHECK(near((double)MathFuncs::poisson(n, lam), exp(-lam) * pow(lam, n) / f, 1e-9), "poisson is the Poisson probability"); CHECK(near((double)MathFuncs::log_poisson(n, lam), log((double)MathFuncs::poisson(n, lam)), 1e-9), "log_poisson is its logarithm"); double c = 0, g = 0; for (int i = 0; i <= n; i++) { c += (double)MathFuncs::poisson(i, lam); g += p * pow(1 - p, i); } CHECK(near((double)MathFuncs::poisson_cdf(n, lam), c, 1e-9) && c <= 1 + 1e-9 && near((double)MathFuncs::log_poisson_cdf(n, lam), log(c), 1e-9), "poisson_cdf accumulates the distribution");
  CHECK(near((double)MathFuncs::geom(p, n), p * pow(1 - p, n), 1e-9) && near((double)MathFuncs::log_geom(p, n), log(p * pow(1 - p, n)), 1e-9), "geom is the geometric probability"); CHECK(near((double)MathFuncs::geom_cdf(p, n), g, 1e-9) && near(g, 1 - pow(1 - p, n + 1), 1e-9) && near((double)MathFuncs::log_geom_cdf(p, n), log(g), 1e-9), "geom_cdf accumulates the distribution");
  double a = (double)MathFuncs::norm_cdf(lam, p, n / 4.0), b = (double)MathFuncs::norm_cdf(lam, p, n / 4.0 + 0.25); CHECK(0 <= a && a <= b && b <= 1, "norm_cdf is a non-decreasing function into [0,1]"); CHECK(near((double)MathFuncs::norm_cdf(lam, p, lam), 0.5, 1e-12) && near((double)MathFuncs::norm_cdf(lam, p, lam + n) + (double)MathFuncs::norm_cdf(lam, p, lam - n), 1, 1e-12) && near((double)MathFuncs::norm_std_cdf(1), 0.8413447460685429, 1e-9), "norm_cdf is centred, symmetric and scaled by its deviation"); if (a > 0) CHECK(near((double)MathFuncs::log_norm_cdf(lam, p, n / 4.0), log(a), 1e-9), "log_norm_cdf is its logarithm"); COVER("dist");
}
HARNESS(h_triang) { // triangular distribution over a mode inside its support
  int a = sym::conc((int)sym::range("a", 0, 3)), w = sym::conc((int)sym::range("w", 2, 6)), m = sym::conc((int)sym::range("m", 1, 5)); ASSUME(m < w); double A = a, B = a + w, C = a + m; int i = sym::conc((int)sym::range("i", 0, 11)); ASSUME(i < 2 * w); double x = a + i / 2.0, l = (double)MathFuncs::triang_cdf(A, B, C, x), u = (double)MathFuncs::triang_cdf(A, B, C, x + 0.5); CHECK(0 <= l && l <= u && u <= 1, "triang_cdf is non-decreasing into [0,1] over its support"); CHECK((double)MathFuncs::triang_cdf(A, B, C, A) == 0 && near((double)MathFuncs::triang_cdf(A, B, C, B), 1, 1e-12) && near((double)MathFuncs::triang_cdf(A, B, C, C), (C - A) / (B - A), 1e-12), "triang_cdf has the right values at its ends and mode"); COVER("triang");
}
HARNESS(h_io) { // counts and probabilities written and read as text
  int k = sym::conc((int)sym::range("k", 0, 600)); double v = k / 4.0; std::ostringstream o; o << Count(v) << " " << Prob(v) << " " << LgProb(-v); double r; std::istringstream i(o.str()); Count c; Prob p; i >> c >> p >> r; CHECK((double)c == v && (double)p == v && r == -v, "counts and probabilities are read back as written"); COVER("io");
}

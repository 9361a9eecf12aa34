#include "LevelDbNgramTable.h"
#include "enc.h"
HARNESS(h_round) { LevelDbNgramTable t; W v = words("v", 1, 3, 0, false); std::string k = t.vectorToKey(v.v); CHECKV(nozero(k), "keys have no zero bytes"); Ph w = t.keyToVector(k); CHECK(w.size() == v.size(), "keys decode to as many words"); CHECKV(same(v, w), "keys decode to the words they encode"); COVER("round"); }
HARNESS(h_inj) { LevelDbNgramTable t; W v = words("v", 1, NW, 0, false), w = words("w", 1, NW, 0, false); std::string a = t.vectorToKey(v), b = t.vectorToKey(w); CHECKV(sym::either(!eqs(a, b), eqw(v, w)), "distinct vectors have distinct keys"); COVER("inj"); }
HARNESS(h_order) { LevelDbNgramTable t; W v = words("v", 1, 1, 0, false), w = words("w", 1, 1, 0, false); CHECKV(cmps(t.vectorToKey(v), t.vectorToKey(w)) == cmpw(v, w), "keys are ordered as their words"); COVER("order"); }
// the range scanned for a history holds exactly the n-grams that extend it by one word
HARNESS(h_scan) { LevelDbNgramTable t; W u = words("u", 1, 2, 0, false, true), g = words("g", 1, 3, 0, false); Ph a(u.v), b(u.v); a.push_back(0); b.back() += 1; b.push_back(0); std::string lo = t.vectorToKey(a), hi = t.vectorToKey(b), k = t.vectorToKey(g); int in = sym::both(cmps(lo, k) <= 0, cmps(k, hi) < 0); int ext = g.size() == u.size() + 1 && eqw(g.cut(), u); CHECKV(sym::either(!ext, in), "every extension of a history is scanned"); CHECKV(sym::either(g.size() != u.size() + 1, in == ext), "nothing else of that length is scanned"); CHECK(!eqs(k, t.getDbNullKey()), "the empty history has a key of its own"); COVER("scan"); }

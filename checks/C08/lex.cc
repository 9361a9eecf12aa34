#include "IncrLexLevelDbTable.h"
#include "enc.h"
HARNESS(h_round) { IncrLexLevelDbTable t; W v = words("v", 1, 3, 0, true); std::string k = t.vectorToKey(v.v); CHECKV(nozero(k), "keys have no zero bytes"); Ph w = t.keyToVector(k); CHECK(w.size() == v.size(), "keys decode to as many words"); CHECKV(same(v, w), "keys decode to the words they encode"); COVER("round"); }
HARNESS(h_inj) { IncrLexLevelDbTable t; W v = words("v", 1, NW, 0, true), w = words("w", 1, NW, 0, true); std::string a = t.vectorToKey(v), b = t.vectorToKey(w); CHECKV(sym::either(!eqs(a, b), eqw(v, w)), "distinct vectors have distinct keys"); COVER("inj"); }
HARNESS(h_order) { IncrLexLevelDbTable t; W v = words("v", 1, 1, 0, true), w = words("w", 1, 1, 0, true); CHECKV(cmps(t.vectorToKey(v), t.vectorToKey(w)) == cmpw(v, w), "keys are ordered as their words"); COVER("order"); }
HARNESS(h_scan) { IncrLexLevelDbTable t; W u = words("u", 1, 1, 0, true, true), p = words("p", 1, 2, 0, true); Ph b(1, u.v[0] + 1); std::string lo = t.vectorToKey(u), hi = t.vectorToKey(b), k = t.vectorToKey(p); CHECKV(sym::both(cmps(lo, k) <= 0, cmps(k, hi) < 0) == (p.d[0] == u.d[0]), "a target's key range holds exactly its entries"); COVER("scan"); }
// stored numbers are the bit patterns of the floats
HARNESS(h_float) { IncrLexLevelDbTable t; uint64_t dg; uint32_t b = word("f", 0, true, false, &dg); uint32_t e = (b >> 23) & 255; ASSUME(e != 255 || (b & 0x7fffff) == 0); float f; memcpy(&f, &b, 4); std::string s = t.floatToString(f); float g = 0; CHECK(s.size() == 5 && t.stringToFloat(s, g), "numbers are stored in five bytes"); uint32_t c; memcpy(&c, &g, 4); CHECKV(c == b, "stored numbers are read back bit for bit"); COVER("float"); }

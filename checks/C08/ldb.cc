#include "LevelDbPhraseTable.h"
#include "enc.h"
HARNESS(h_round) { LevelDbPhraseTable t; W v = words("v", 1, 3, 0, false); std::string k = t.vectorToKey(v.v); CHECKV(nozero(k), "keys have no zero bytes"); Ph w = t.keyToVector(k); CHECK(w.size() == v.size(), "keys decode to as many words"); CHECKV(same(v, w), "keys decode to the words they encode"); COVER("round"); }
HARNESS(h_inj) { LevelDbPhraseTable t; W v = words("v", 1, NW, 0, false), w = words("w", 1, NW, 0, false); std::string a = t.vectorToKey(v), b = t.vectorToKey(w); CHECKV(sym::either(!eqs(a, b), eqw(v, w)), "distinct vectors have distinct keys"); COVER("inj"); }
HARNESS(h_order) { LevelDbPhraseTable t; W v = words("v", 1, 1, 0, false), w = words("w", 1, 1, 0, false); CHECKV(cmps(t.vectorToKey(v), t.vectorToKey(w)) == cmpw(v, w), "keys are ordered as their words"); COVER("order"); }
// source, target and pair keys: words from 3 on, as the vocabularies hand them out
HARNESS(h_kinds) { LevelDbPhraseTable t; W s = words("s", 1, 2, 3, false), u = words("u", 1, 2, 3, false), p = words("p", 1, 2, 3, false), q = words("q", 1, 2, 3, false); std::string ks = t.vectorToKey(t.encodeSrc(s)), kt = t.vectorToKey(u), kp = t.vectorToKey(t.encodeTrgSrc(p, q)); CHECKV(!eqs(ks, kt) && !eqs(ks, kp) && !eqs(kt, kp), "source, target and pair keys differ"); COVER("kinds"); }
HARNESS(h_pairs) { LevelDbPhraseTable t; W p = words("p", 1, 2, 3, false), q = words("q", 1, 2, 3, false), r = words("r", 1, 2, 3, false), s = words("s", 1, 2, 3, false); CHECKV(sym::either(!eqs(t.vectorToKey(t.encodeTrgSrc(p, q)), t.vectorToKey(t.encodeTrgSrc(r, s))), sym::both(eqw(p, r), eqw(q, s))), "distinct pairs have distinct keys"); COVER("pairs"); }
// the key range scanned for a target phrase holds exactly the pairs of that phrase
HARNESS(h_scan) { LevelDbPhraseTable t; W u = words("u", 1, 2, 3, false), p = words("p", 1, 2, 3, false), q = words("q", 1, 1, 3, false); Ph a(u.v), b(u.v); a.push_back(UNUSED_WORD); b.push_back(3); std::string lo = t.vectorToKey(a), hi = t.vectorToKey(b), k = t.vectorToKey(t.encodeTrgSrc(q, p)), one = t.vectorToKey(p), src = t.vectorToKey(t.encodeSrc(p)); int in = sym::both(cmps(lo, k) <= 0, cmps(k, hi) < 0); CHECKV(in == eqw(u, p), "a target's key range holds exactly its pairs"); CHECKV(!sym::both(cmps(lo, one) <= 0, cmps(one, hi) < 0), "no target key lies in a pair range"); CHECKV(!sym::both(cmps(lo, src) <= 0, cmps(src, hi) < 0), "no source key lies in a pair range"); COVER("scan"); }

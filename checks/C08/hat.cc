#include "HatTriePhraseTable.h"
#include "enc.h"
HARNESS(h_round) { HatTriePhraseTable t; W v = words("v", 1, 3, 0, false); std::string k = t.vectorToKey(v.v); CHECKV(nozero(k), "keys have no zero bytes"); Ph w = t.keyToVector(k); CHECK(w.size() == v.size(), "keys decode to as many words"); CHECKV(same(v, w), "keys decode to the words they encode"); COVER("round"); }
HARNESS(h_inj) { HatTriePhraseTable t; W v = words("v", 1, NW, 0, false), w = words("w", 1, NW, 0, false); std::string a = t.vectorToKey(v), b = t.vectorToKey(w); CHECKV(sym::either(!eqs(a, b), eqw(v, w)), "distinct vectors have distinct keys"); COVER("inj"); }
HARNESS(h_order) { HatTriePhraseTable t; W v = words("v", 1, 1, 0, false), w = words("w", 1, 1, 0, false); CHECKV(cmps(t.vectorToKey(v), t.vectorToKey(w)) == cmpw(v, w), "keys are ordered as their words"); COVER("order"); }
HARNESS(h_kinds) { HatTriePhraseTable t; W s = words("s", 1, 2, 3, false), u = words("u", 1, 2, 3, false), p = words("p", 1, 2, 3, false), q = words("q", 1, 2, 3, false); std::string ks = t.vectorToKey(t.getSrc(s)), kt = t.vectorToKey(u), kp = t.vectorToKey(t.getTrgSrc(p, q)); CHECKV(!eqs(ks, kt) && !eqs(ks, kp) && !eqs(kt, kp), "source, target and pair keys differ"); CHECK(t.isTargetPhrase(u) && !t.isTargetPhrase(t.getSrc(s)) && !t.isTargetPhrase(t.getTrgSrc(p, q)), "target keys are told apart"); COVER("kinds"); }
HARNESS(h_pairs) { HatTriePhraseTable t; W p = words("p", 1, 2, 3, false), q = words("q", 1, 2, 3, false), r = words("r", 1, 2, 3, false), s = words("s", 1, 2, 3, false); CHECKV(sym::either(!eqs(t.vectorToKey(t.getTrgSrc(p, q)), t.vectorToKey(t.getTrgSrc(r, s))), sym::both(eqw(p, r), eqw(q, s))), "distinct pairs have distinct keys"); COVER("pairs"); }
// a pair key has the scanned prefix exactly when it belongs to the target phrase
HARNESS(h_prefix) { HatTriePhraseTable t; W u = words("u", 1, 2, 3, false), p = words("p", 1, 2, 3, false), q = words("q", 1, 2, 3, false); Ph none; std::string pre = t.vectorToKey(t.getTrgSrc(none, u)), k = t.vectorToKey(t.getTrgSrc(q, p)); int in = k.size() < pre.size() ? 0 : eqs(k.substr(0, pre.size()), pre); CHECKV(in == eqw(u, p), "the prefix scan of a target finds exactly its pairs"); COVER("prefix"); }

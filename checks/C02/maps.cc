// Trie, BidTrie, TrieVecs and OrderedVector against association-list references.
// Key symbols and stored data are symbolic over their whole type; only the shape of the history splits paths.
#include "sym.h"
#include "Trie.h"
#include "BidTrie.h"
#include "TrieVecs.h"
#include "OrderedVector.h"
#ifndef NOPS
#define NOPS 3
#endif
#ifndef TVOPS
#define TVOPS 2
#endif
#ifndef OVOPS
#define OVOPS 4
#endif
typedef std::vector<unsigned> Key;
struct Ent { Key k; unsigned d; bool own; };
static bool eq(const Key& a, const Key& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; }
struct RefTrie { // every nonempty prefix of an inserted key is a node
  std::vector<Ent> v;
  int at(const Key& k) const { for (size_t i = 0; i < v.size(); i++) if (eq(v[i].k, k)) return (int)i; return -1; }
  void put(const Key& k, unsigned d) { for (size_t l = 1; l <= k.size(); l++) { Key p(k.begin(), k.begin() + l); int i = at(p); if (i < 0) { Ent e; e.k = p; e.d = 0; e.own = false; v.push_back(e); i = (int)v.size() - 1; } if (l == k.size()) { v[i].d = d; v[i].own = true; } } }
  size_t owned() const { size_t n = 0; for (size_t i = 0; i < v.size(); i++) n += v[i].own; return n; }
};
static Key key(const char* n, int i, int maxlen) { int l = sym::choice((std::string(n) + "len").c_str(), i, 1, maxlen); Key k; for (int j = 0; j < l; j++) k.push_back((unsigned)sym::bits((std::string(n) + char('a' + j)).c_str(), i, 32)); return k; }
static size_t cnt(const Trie<unsigned, unsigned>&t) { return t.size(); }
static size_t cnt(const BidTrie<unsigned, unsigned>&t) { return t.size(); }
static size_t cnt(const TrieVecs<unsigned, unsigned>&t) { return t.size() - 1; } // counts its root
template <class T> static void agree(T& t, const RefTrie& r, const Key& probe) {
  CHECK(cnt(t) == r.v.size(), "number of nodes is the number of distinct prefixes");
  for (size_t i = 0; i < r.v.size(); i++) { unsigned* p = t.find(r.v[i].k); CHECK(p != NULL, "every inserted key is found"); if (r.v[i].own) CHECK(*p == r.v[i].d, "lookup returns the last value stored"); }
  unsigned* p = t.find(probe); int i = r.at(probe); CHECK((p != NULL) == (i >= 0), "an arbitrary key is found exactly when it was inserted"); if (p && i >= 0 && r.v[i].own) CHECK(*p == r.v[i].d, "probe returns the stored value");
  RefTrie seen; size_t n = 0;
  for (typename T::const_iterator it = t.begin(); it != t.end() && n <= r.v.size() + 1; ++it, ++n) {
    if (it->first.empty()) { n--; continue; } // the root of a TrieVecs
    int j = r.at(it->first); CHECK(j >= 0, "iteration visits only stored keys"); if (j >= 0) { CHECK(seen.at(it->first) < 0, "iteration visits no key twice"); if (r.v[j].own) CHECK(it->second == r.v[j].d, "iteration shows the stored value"); Ent e; e.k = it->first; e.own = true; e.d = 0; seen.v.push_back(e); } }
  CHECK(n == r.v.size(), "iteration visits every key");
}
template <class T> static void history(int ops) {
  T t; RefTrie r; int n = sym::choice("n", 0, ops);
  for (int i = 0; i < n; i++) { Key k = key("k", i, 3); unsigned d = (unsigned)sym::bits("d", i, 32); t.insert(k, d); r.put(k, d); }
  Key probe = key("p", 0, 2); agree(t, r, probe); COVER("history");
  t.clear(); RefTrie none; agree(t, none, probe); Key k2 = key("q", 0, 2); t.insert(k2, 5); none.put(k2, 5); agree(t, none, probe); COVER("cleared");
}
HARNESS(h_trie) { history<Trie<unsigned, unsigned> >(NOPS); }
HARNESS(h_trievecs) { history<TrieVecs<unsigned, unsigned> >(TVOPS); }
HARNESS(h_bidtrie) { history<BidTrie<unsigned, unsigned> >(NOPS); }
template <class T> static void copied() {
  T t; RefTrie r; int n = sym::choice("n", 0, 2);
  for (int i = 0; i < n; i++) { Key k = key("k", i, 2); unsigned d = (unsigned)sym::bits("d", i, 32); t.insert(k, d); r.put(k, d); }
  Key probe = key("p", 0, 2); T c(t), a; if (n) a.insert(probe, 1); a = t; agree(c, r, probe); a.insert(probe, 7); RefTrie ra = r; ra.put(probe, 7); agree(a, ra, probe); agree(t, r, probe); COVER("copied");
}
HARNESS(h_trie_copy) { copied<Trie<unsigned, unsigned> >(); }
HARNESS(h_trievecs_copy) { copied<TrieVecs<unsigned, unsigned> >(); }
HARNESS(h_bidtrie_copy) { copied<BidTrie<unsigned, unsigned> >(); }
HARNESS(h_trie_lookup) { // operator[] and findV: the path of prefixes of a key
  Trie<unsigned, unsigned> t; RefTrie r; int n = sym::choice("n", 1, 2);
  for (int i = 0; i < n; i++) { Key k = key("k", i, 3); unsigned d = (unsigned)sym::bits("d", i, 32); t[k] = d; r.put(k, d); }
  Key p = key("p", 0, 3); agree(t, r, p);
  std::vector<unsigned*> v = t.findV(p); size_t l = 0; while (l < p.size() && r.at(Key(p.begin(), p.begin() + l + 1)) >= 0) l++;
  CHECK(v.size() == l, "findV returns one entry per stored prefix"); for (size_t i = 0; i < l; i++) CHECK(v[i] == t.find(Key(p.begin(), p.begin() + i + 1)), "findV returns the prefix entries in order");
  Trie<unsigned, unsigned>* s = t.getState(p); CHECK((s != NULL) == (l == p.size()), "getState finds exactly the stored keys"); if (s) CHECK(&s->getData() == t.find(p), "getState reaches the entry of the key");
  unsigned h = 0; for (size_t i = 0; i < r.v.size(); i++) if (r.v[i].k.size() > h) h = (unsigned)r.v[i].k.size(); CHECK(t.height() == h, "height is the longest key"); COVER("lookup");
}
HARNESS(h_bidtrie_path) {
  BidTrie<unsigned, unsigned> t; RefTrie r; int n = sym::choice("n", 1, 2); std::vector<Key> ks;
  for (int i = 0; i < n; i++) { Key k = key("k", i, 3); t.insert(k, i); ks.push_back(k); }
  for (int i = 0; i < n; i++) { BidTrie<unsigned, unsigned>* s = t.getState(ks[i]); CHECK(s != NULL, "state of an inserted key exists"); Key back; s->getKeySeq(back); CHECK(back.size() == ks[i].size(), "key sequence of a state has the length of its key"); for (size_t j = 0; j < back.size(); j++) CHECK(back[j] == ks[i][back.size() - 1 - j], "key sequence of a state walks back to the root"); } COVER("path");
}
HARNESS(h_ordered) { // OrderedVector as a sorted map; keys ordered over all 32-bit values
  typedef OrderedVector<unsigned, unsigned> OV; OV v; std::vector<std::pair<unsigned, unsigned> > r; int n = sym::choice("n", 1, OVOPS);
  for (int i = 0; i < n; i++) {
    int op = i == 0 ? 0 : sym::choice("op", i, 0, 3);
    if (op <= 1) { unsigned k = (unsigned)sym::bits("k", i, 32), d = (unsigned)sym::bits("d", i, 32); if (op == 0) v.insert(k, d); else v[k] = d;
      size_t j = 0; while (j < r.size() && r[j].first < k) j++; if (j < r.size() && r[j].first == k) r[j].second = d; else r.insert(r.begin() + j, std::make_pair(k, d)); COVER("insert"); }
    else if (op == 2) { if (!r.empty()) { CHECK(v.top().first == r.back().first && v.top().second == r.back().second, "top is the largest key"); r.pop_back(); } v.pop(); COVER("pop"); }
    else { v.clear(); r.clear(); COVER("clear"); }
    CHECK(v.size() == r.size() && v.empty() == r.empty(), "size agrees with the reference map");
  }
  size_t j = 0; for (OV::const_iterator it = ((const OV&)v).begin(); it != ((const OV&)v).end(); ++it, ++j) { CHECK(j < r.size(), "iteration ends with the last key"); CHECK(it->first == r[j].first && it->second == r[j].second, "iteration is in key order with the stored data"); } CHECK(j == r.size(), "iteration reaches every key");
  unsigned p = (unsigned)sym::bits("p", 32); int at = -1; for (size_t i = 0; i < r.size(); i++) if (r[i].first == p) at = (int)i; unsigned* q = v.findPtr(p); CHECK((q != NULL) == (at >= 0), "lookup finds exactly the stored keys"); if (q) CHECK(*q == r[at].second, "lookup returns the stored data");
  OV::iterator it = v.find(p); CHECK((it == v.end()) == (at < 0), "iterator lookup agrees"); if (at >= 0) CHECK(it->second == r[at].second, "iterator lookup shows the data");
  OV c(v), a; a = v; CHECK(c.size() == r.size() && a.size() == r.size(), "copies have the same size"); for (size_t i = 0; i < r.size(); i++) CHECK(c.findPtr(r[i].first) && *c.findPtr(r[i].first) == r[i].second, "a copy holds the same entries"); if (!r.empty()) { a[r[0].first] = 77; CHECK(*v.findPtr(r[0].first) == r[0].second, "copies are independent"); }
}

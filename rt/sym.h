// Harness-side helpers. The same harness source is (a) executed symbolically by the VM and
// (b) compiled natively against the real library to replay counterexamples and sample paths.
#pragma once
#include "sym_api.h"
#include <string>
#include <vector>
#include <stdio.h>
#include <string.h>
#define HARNESS(n) extern "C" void n()
#define CHECK(c, label) __sym_check((c) ? 1 : 0, label)
#define CHECKV(c, label) __sym_check((int)(c), label)
#define ASSUME(c) __sym_assume((c) ? 1 : 0)
#define COVER(label) __sym_cover(label)
#ifndef BOUND_A
#endif
namespace sym {
inline std::string nm(const char* n, int i) { char b[64]; snprintf(b, sizeof b, "%s%d", n, i); return b; }
inline int64_t range(const char* n, int64_t lo, int64_t hi) { return __sym_range(n, lo, hi); }
inline int64_t range(const char* n, int i, int64_t lo, int64_t hi) { return __sym_range(nm(n, i).c_str(), lo, hi); }
inline int choice(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
inline int choice(const char* n, int i, int lo, int hi) { return (int)__sym_choice(nm(n, i).c_str(), lo, hi); }
inline uint64_t bits(const char* n, unsigned w) { return __sym_bits(n, w); }
inline uint64_t bits(const char* n, int i, unsigned w) { return __sym_bits(nm(n, i).c_str(), w); }
inline bool flag(const char* n) { return __sym_bits(n, 1) != 0; }
// score lo..hi in steps of 2^-k, exact in double arithmetic
inline double fix(const char* n, int64_t lo, int64_t hi, int k = 0) { return __sym_fix(n, lo, hi, k); }
inline double fix(const char* n, int i, int64_t lo, int64_t hi, int k) { return __sym_fix(nm(n, i).c_str(), lo, hi, k); }
// from here on log and exp of symbolic values are arbitrary monotone functions, in steps of 2^-k
inline void abslog(int k) { __sym_abslog(k); }
// a character drawn from an alphabet, without splitting the path
inline char ch(const char* name, const char* alphabet) { int n = (int)strlen(alphabet); int64_t k = __sym_range(name, 0, n - 1); uint64_t r = (unsigned char)alphabet[n - 1]; for (int i = n - 2; i >= 0; i--) r = __sym_ite(k == i, (unsigned char)alphabet[i], r); return (char)r; }
// a string over an alphabet: the length splits the path, the contents stay symbolic
inline std::string str(const char* name, int minlen, int maxlen, const char* alphabet) { int n = choice((std::string(name) + ".len").c_str(), minlen, maxlen); std::string s((size_t)n, ' '); for (int i = 0; i < n; i++) s[i] = ch((std::string(name) + "." + char('0' + i / 10) + char('0' + i % 10)).c_str(), alphabet); return s; }
inline std::string concs(const std::string& s) { std::string r(s); for (size_t i = 0; i < r.size(); i++) r[i] = (char)__sym_conc((unsigned char)r[i]); return r; }
inline int conc(int v) { return (int)__sym_conc((uint64_t)(int64_t)v); }
inline double concd(double v) { return __sym_concd(v); }
inline void obs(uint64_t v) { __sym_observe(v); }
inline void obsd(double v) { uint64_t u; memcpy(&u, &v, 8); __sym_observe(u); }
inline void obss(const std::string& s) { __sym_observe(s.size()); for (size_t i = 0; i < s.size(); i++) __sym_observe((unsigned char)s[i]); }
inline int both(int a, int b) { return __sym_and(a, b); }
inline int either(int a, int b) { return __sym_or(a, b); }
inline void putFile(const char* name, const std::string& data) { vfs_put(name, data.data(), data.size()); }
inline std::string getFile(const char* name) { long n = vfs_len(name); return n <= 0 ? std::string() : std::string(vfs_ptr(name), (size_t)n); }
}

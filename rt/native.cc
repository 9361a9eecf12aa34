// Native implementation of the harness interface: inputs come from a replay file.
#include "sym_api.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <deque>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/stat.h>
static std::map<std::string, std::deque<std::pair<unsigned, uint64_t>>> in; static std::vector<uint64_t> obsv; static std::map<std::string, std::string> cache;
static void line(const std::string& s) { printf("%s\n", s.c_str()); fflush(stdout); }
extern "C" {
static uint64_t take(const char* n, uint64_t dflt) { auto it = in.find(n); if (it == in.end() || it->second.empty()) return dflt; uint64_t v = it->second.front().second; unsigned w = it->second.front().first; it->second.pop_front(); (void)w; return v; }
static int64_t sxt(uint64_t v, int64_t lo, int64_t hi) { unsigned w = 2; while (w < 64 && (lo < -(1ll << (w - 1)) || hi > (1ll << (w - 1)) - 1)) w++; if (w >= 64) return (int64_t)v; v &= (1ull << w) - 1; return (v >> (w - 1)) & 1 ? (int64_t)(v | ~((1ull << w) - 1)) : (int64_t)v; }
uint64_t __sym_bits(const char* n, unsigned) { return take(n, 0); }
int64_t __sym_range(const char* n, int64_t lo, int64_t hi) { if (lo == hi) return lo; return sxt(take(n, (uint64_t)lo), lo, hi); }
int64_t __sym_choice(const char* n, int64_t lo, int64_t hi) { if (lo == hi) return lo; return sxt(take(n, (uint64_t)lo), lo, hi); }
double __sym_fix(const char* n, int64_t lo, int64_t hi, int k) { int64_t v = lo == hi ? lo : sxt(take(n, (uint64_t)lo), lo, hi); return std::ldexp((double)v, -k); }
void __sym_abslog(int) {}
void __sym_assume(int c) { if (!c) { line("REPLAY-ASSUME"); _exit(3); } }
void __sym_check(int c, const char* l) { if (!c) { line(std::string("REPLAY-FAIL ") + l); _exit(1); } }
void __sym_cover(const char*) {}
void __sym_observe(uint64_t v) { obsv.push_back(v); }
uint64_t __sym_conc(uint64_t v) { return v; } double __sym_concd(double v) { return v; } int __sym_decide(int c) { return c != 0; } int __sym_issym(uint64_t) { return 0; }
int __sym_and(int a, int b) { return a && b; } int __sym_or(int a, int b) { return a || b; } uint64_t __sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; } double __sym_ited(int c, double a, double b) { return c ? a : b; }
static void finish() { for (uint64_t v : obsv) printf("obs %llu\n", (unsigned long long)v); line("REPLAY-OK"); _exit(0); }
void __sym_fail(const char* l) { line(std::string("REPLAY-FAIL ") + l); _exit(1); }
void __sym_stop() { finish(); }
int __sym_vm() { return 0; } void __sym_print(const char* s) { fprintf(stderr, "%s\n", s); } void __sym_printi(const char* s, int64_t v) { fprintf(stderr, "%s = %lld\n", s, (long long)v); }
void vfs_put(const char* n, const char* p, size_t len) { FILE* f = fopen(n, "wb"); if (!f) { perror(n); _exit(4); } if (len) fwrite(p, 1, len, f); fclose(f); }
static const std::string* get(const char* n) { FILE* f = fopen(n, "rb"); if (!f) return nullptr; std::string s; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); cache[n] = s; return &cache[n]; }
long vfs_len(const char* n) { const std::string* s = get(n); return s ? (long)s->size() : -1; }
const char* vfs_ptr(const char* n) { const std::string* s = get(n); return s ? s->data() : nullptr; }
int vm_locks_held __attribute__((weak)) = 0;
}
int main(int argc, char** argv) { // entry replay-file scratch-dir
  if (argc < 4) return 5; FILE* f = fopen(argv[2], "r"); if (!f) return 5; char nm[256], ln[1024]; unsigned w; unsigned long long v;
  while (fgets(ln, sizeof ln, f)) { if (!strncmp(ln, "---", 3)) break; if (sscanf(ln, "in %255s %u %llu", nm, &w, &v) == 3) in[nm].push_back({w, v}); } fclose(f);
  if (chdir(argv[3])) { perror("chdir"); return 5; }
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 5; }
  alarm(60); fn(); finish();
}

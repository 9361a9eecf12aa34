// Guest memory: a host arena with one shadow byte and one expression slot per guest byte.
#pragma once
#include "expr.h"
#include <sys/mman.h>
#include <unordered_map>

enum : uint8_t { SH_NONE = 0, SH_OK = 1, SH_SYM = 2, SH_FREED = 4, SH_UNINIT = 3 };
static const uint64_t ARENA = 0x100000000000ull;
static const uint64_t ARENA_SZ = 1ull << 30;      // 1 GiB
static const uint64_t FUNC_BASE = ARENA + 0x1000;   // function "addresses" (never addressable)
static const uint64_t GLOB_BASE = ARENA + (16ull << 20);
static const uint64_t STACK_BASE = ARENA + (128ull << 20), STACK_END = ARENA + (192ull << 20);
static const uint64_t HEAP_BASE = ARENA + (192ull << 20), HEAP_END = ARENA + ARENA_SZ;

struct Mem {
  uint8_t* sh; E* side; uint64_t gp = GLOB_BASE, sp = STACK_BASE, hp = HEAP_BASE;
  std::unordered_map<uint64_t, uint64_t> heap; uint64_t live = 0;
  static void* map(uint64_t at, uint64_t sz) { void* p = mmap((void*)at, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(77); } return p; }
  Mem() { map(ARENA, ARENA_SZ); sh = (uint8_t*)map(0, ARENA_SZ); side = (E*)map(0, ARENA_SZ * sizeof(E)); }
  bool in(uint64_t a, uint64_t n) const { return a >= ARENA && a - ARENA <= ARENA_SZ - n && n <= ARENA_SZ; }
  uint8_t& S(uint64_t a) { return sh[a - ARENA]; }
  uint64_t galloc(uint64_t n, uint64_t al) { if (al < 16) al = 16; gp = (gp + 32 + al - 1) & ~(al - 1); uint64_t r = gp; memset(&S(r), SH_OK, n); gp += n; if (gp > STACK_BASE) { fprintf(stderr, "ENGINE-ERROR globals\n"); _exit(77); } return r; }
  uint64_t halloc(uint64_t n, uint64_t al = 16) {
    if (n > (256u << 20)) return 0; if (al < 16) al = 16; hp = (hp + 16 + al - 1) & ~(al - 1); uint64_t r = hp; uint64_t m = n ? n : 0; if (hp + m + 64 > HEAP_END) return 0;
    if (m) { memset(&S(r), SH_OK, m); memset((void*)r, 0xBE, m); } hp += m + 1; heap[r] = n; return r; }
  // 0 ok, 1 not a live block, 2 already freed
  int hfree(uint64_t p) { auto it = heap.find(p); if (it == heap.end()) return (in(p, 1) && p >= HEAP_BASE && S(p) == SH_FREED) ? 2 : 1; if (it->second) memset(&S(p), SH_FREED, it->second); heap.erase(it); return 0; }
};

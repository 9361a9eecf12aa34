// Runtime of the guest program: the parts of libc/libstdc++ that are not header-only,
// written so that they execute symbolically; an in-memory file system; lock bookkeeping.
#include <iostream>
#include <fstream>
#include <sstream>
#include <map>
#include <list>
#include <unordered_map>
#include <stdexcept>
#include <new>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <pthread.h>
#include <sys/time.h>
#include <ctime>
#include "../rt/sym_api.h"

template class std::basic_string<char>;
namespace std {
ostream cout, cerr, clog; istream cin;
// ---- red-black tree support (same contracts as libstdc++ src/c++98/tree.cc)
typedef _Rb_tree_node_base* BP; typedef const _Rb_tree_node_base* CBP;
BP _Rb_tree_increment(BP x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { BP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
CBP _Rb_tree_increment(CBP x) throw() { return _Rb_tree_increment(const_cast<BP>(x)); }
BP _Rb_tree_decrement(BP x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { BP y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { BP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
CBP _Rb_tree_decrement(CBP x) throw() { return _Rb_tree_decrement(const_cast<BP>(x)); }
static void rotl(BP x, BP& root) { BP y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(BP x, BP& root) { BP y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, BP x, BP p, _Rb_tree_node_base& h) throw() {
  BP& root = h._M_parent; x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    BP g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) { BP y = g->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); } }
    else { BP y = g->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); } }
  }
  root->_M_color = _S_black;
}
static BP mn(BP x) { while (x->_M_left) x = x->_M_left; return x; } static BP mx(BP x) { while (x->_M_right) x = x->_M_right; return x; }
BP _Rb_tree_rebalance_for_erase(BP const z, _Rb_tree_node_base& h) throw() {
  BP& root = h._M_parent; BP& lm = h._M_left; BP& rm = h._M_right; BP y = z, x = 0, xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; _Rb_tree_color t = y->_M_color; y->_M_color = z->_M_color; z->_M_color = t; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else lm = mn(x); } if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else rm = mx(x); }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black)) {
      if (x == xp->_M_left) { BP w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; } }
      else { BP w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; } }
    }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t p[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727}; for (size_t q : p) if (q >= n) { _M_next_resize = (size_t)(q * _M_max_load_factor); return q; } __sym_fail("hash table too large for the model"); return 0; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { double m = (ne + ni) / (double)_M_max_load_factor; if (m < 11 && _M_next_resize == 0) m = 11; if (m >= nb) { size_t want = (size_t)m + 1; if (want < nb * 2) want = nb * 2; return {true, _M_next_bkt(want)}; } _M_next_resize = (size_t)(nb * (double)_M_max_load_factor); } return {false, 0}; }
}
// any hash function is a legal model of the library's; a constant one avoids symbolic table indices
size_t _Hash_bytes(const void*, size_t len, size_t) { return len & 1; }
#define THR(n, k) void n(const char*) { __sym_fail("uncaught-exception"); abort(); }
void __throw_length_error(const char*) { __sym_fail("std::length_error"); abort(); }
void __throw_logic_error(const char*) { __sym_fail("std::logic_error"); abort(); }
void __throw_out_of_range(const char*) { __sym_fail("std::out_of_range"); abort(); }
void __throw_out_of_range_fmt(const char*, ...) { __sym_fail("std::out_of_range"); abort(); }
void __throw_invalid_argument(const char*) { __sym_fail("std::invalid_argument"); abort(); }
void __throw_bad_alloc() { __sym_fail("std::bad_alloc"); abort(); }
void __throw_bad_array_new_length() { __sym_fail("std::bad_alloc"); abort(); }
void __throw_bad_cast() { __sym_fail("std::bad_cast"); abort(); }
void __throw_bad_function_call() { __sym_fail("std::bad_function_call"); abort(); }
void __throw_runtime_error(const char*) { __sym_fail("std::runtime_error"); abort(); }
void __throw_system_error(int) { __sym_fail("std::system_error"); abort(); }
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
static char* dup(const char* s) { size_t n = strlen(s); char* p = (char*)malloc(n + 1); memcpy(p, s, n + 1); return p; }
__cow_string::__cow_string(const char* s, size_t) : _M_p(dup(s)) {} __cow_string::__cow_string(const std::string& s) : _M_p(dup(s.c_str())) {} __cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dup(o._M_p)) {} __cow_string::~__cow_string() { free((void*)_M_p); }
runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {} runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s, 0) {} logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
invalid_argument::invalid_argument(const string& s) : logic_error(s) {} invalid_argument::invalid_argument(const char* s) : logic_error(s) {} invalid_argument::~invalid_argument() noexcept {}
out_of_range::out_of_range(const string& s) : logic_error(s) {} out_of_range::out_of_range(const char* s) : logic_error(s) {} out_of_range::~out_of_range() noexcept {}
length_error::length_error(const string& s) : logic_error(s) {} length_error::length_error(const char* s) : logic_error(s) {} length_error::~length_error() noexcept {}
overflow_error::overflow_error(const string& s) : runtime_error(s) {} overflow_error::overflow_error(const char* s) : runtime_error(s) {} overflow_error::~overflow_error() noexcept {}
}
// ------------------------------------------------------------------ in-memory file system
struct VFile { char* name; char* data; size_t len, cap; VFile* next; bool gone; };
static VFile* vfiles = nullptr;
extern "C" {
static VFile* vfind(const char* n) { for (VFile* f = vfiles; f; f = f->next) if (!f->gone && !strcmp(f->name, n)) return f; return nullptr; }
VFile* __vfs_open(const char* n, int mode) {
  VFile* f = vfind(n); if (!f) { if (!(mode & 2) || !*n) return nullptr; f = (VFile*)malloc(sizeof(VFile)); f->name = std::dup(n); f->data = nullptr; f->len = f->cap = 0; f->gone = false; f->next = vfiles; vfiles = f; return f; }
  if ((mode & 2) && (mode & 8)) f->len = 0; return f; }
void __vfs_write(VFile* f, size_t pos, const char* p, size_t n) { if (pos + n > f->cap) { size_t c = f->cap * 2; if (c < pos + n) c = pos + n; if (c < 64) c = 64; f->data = (char*)realloc(f->data, c); f->cap = c; } if (pos > f->len) memset(f->data + f->len, 0, pos - f->len); memcpy(f->data + pos, p, n); if (pos + n > f->len) f->len = pos + n; }
size_t __vfs_size(VFile* f) { return f->len; }
const char* __vfs_data(VFile* f) { return f->data; }
void vfs_put(const char* n, const char* p, size_t len) { VFile* f = __vfs_open(n, 2 | 8); __vfs_write(f, 0, p, len); }
long vfs_len(const char* n) { VFile* f = vfind(n); return f ? (long)f->len : -1; }
const char* vfs_ptr(const char* n) { VFile* f = vfind(n); return f ? f->data : nullptr; }
int remove(const char* n) noexcept { VFile* f = vfind(n); if (!f) return -1; f->gone = true; return 0; }
int unlink(const char* n) noexcept { return remove(n); }
int rename(const char* a, const char* b) noexcept { VFile* f = vfind(a); if (!f) return -1; VFile* g = vfind(b); if (g) g->gone = true; f->name = std::dup(b); return 0; }
int access(const char* n, int) noexcept { return vfind(n) ? 0 : -1; }
// ---- stdio
struct GF { VFile* f; size_t pos; int err, eof, mode; };
static GF g_in, g_out, g_err; FILE* stdin = (FILE*)&g_in; FILE* stdout = (FILE*)&g_out; FILE* stderr = (FILE*)&g_err;
FILE* fopen(const char* n, const char* m) { int md = m[0] == 'r' ? 1 : m[0] == 'w' ? (2 | 8) : (2 | 4); for (const char* q = m; *q; q++) if (*q == '+') md |= 3; VFile* f = __vfs_open(n, md); if (!f || (m[0] == 'r' && !vfind(n))) return nullptr; GF* g = (GF*)malloc(sizeof(GF)); g->f = f; g->pos = m[0] == 'a' ? f->len : 0; g->err = g->eof = 0; g->mode = md; return (FILE*)g; }
FILE* fopen64(const char* n, const char* m) { return fopen(n, m); }
static int tmpn = 0;
FILE* tmpfile() { char b[32] = "/vm-tmp-"; b[8] = 'a' + tmpn / 26; b[9] = 'a' + tmpn % 26; b[10] = 0; tmpn++; return fopen(b, "w+"); }
FILE* tmpfile64() { return tmpfile(); }
int fclose(FILE* s) { free(s); return 0; } int fflush(FILE*) { return 0; }
int fgetc(FILE* s) { GF* g = (GF*)s; if (!g->f || g->pos >= g->f->len) { g->eof = 1; return -1; } return (unsigned char)g->f->data[g->pos++]; }
int getc(FILE* s) { return fgetc(s); } int _IO_getc(FILE* s) { return fgetc(s); }
int ungetc(int c, FILE* s) { GF* g = (GF*)s; if (c < 0) return -1; g->eof = 0; if (g->pos) g->pos--; return c; }
int fputc(int c, FILE* s) { GF* g = (GF*)s; if (g->f) { char b = (char)c; __vfs_write(g->f, g->pos, &b, 1); g->pos++; } return c & 255; } int putc(int c, FILE* s) { return fputc(c, s); }
int putchar(int c) { return c; } int puts(const char*) { return 0; }
size_t fwrite(const void* p, size_t a, size_t b, FILE* s) { GF* g = (GF*)s; if (g->f) { __vfs_write(g->f, g->pos, (const char*)p, a * b); g->pos += a * b; } return b; }
int fputs(const char* p, FILE* s) { fwrite(p, 1, strlen(p), s); return 0; }
size_t fread(void* p, size_t a, size_t b, FILE* s) { GF* g = (GF*)s; size_t n = a * b, av = g->f && g->f->len > g->pos ? g->f->len - g->pos : 0; if (n > av) { n = av; g->eof = 1; } if (n) memcpy(p, g->f->data + g->pos, n); g->pos += n; return a ? n / a : 0; }
char* fgets(char* b, int n, FILE* s) { int i = 0; while (i < n - 1) { int c = fgetc(s); if (c < 0) break; b[i++] = (char)c; if (c == '\n') break; } if (!i) return nullptr; b[i] = 0; return b; }
int feof(FILE* s) { return ((GF*)s)->eof; } int ferror(FILE* s) { return ((GF*)s)->err; } void clearerr(FILE* s) { ((GF*)s)->eof = 0; }
void rewind(FILE* s) { GF* g = (GF*)s; g->pos = 0; g->eof = 0; } int fseek(FILE* s, long o, int w) { GF* g = (GF*)s; g->pos = w == 0 ? o : w == 1 ? g->pos + o : g->f->len + o; g->eof = 0; return 0; } long ftell(FILE* s) { return ((GF*)s)->pos; }
ssize_t getdelim(char** lp, size_t* n, int d, FILE* s) { size_t k = 0; if (!*lp) { *lp = (char*)malloc(16); *n = 16; } for (;;) { int c = fgetc(s); if (c < 0) { if (!k) return -1; break; } if (k + 2 > *n) { *n *= 2; if (*n < 16) *n = 16; *lp = (char*)realloc(*lp, *n); } (*lp)[k++] = (char)c; if (c == d) break; } (*lp)[k] = 0; return k; }
ssize_t __getdelim(char** lp, size_t* n, int d, FILE* s) { return getdelim(lp, n, d, s); }
ssize_t getline(char** lp, size_t* n, FILE* s) { return getdelim(lp, n, '\n', s); }
// ---- strings
char* strcpy(char* d, const char* s) noexcept { memcpy(d, s, strlen(s) + 1); return d; }
char* strncpy(char* d, const char* s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) noexcept { strcpy(d + strlen(d), s); return d; }
char* stpcpy(char* d, const char* s) noexcept { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
int strcmp(const char* a, const char* b) noexcept { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) noexcept { for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char* strdup(const char* s) noexcept { return std::dup(s); }
}
extern "C" {
char* vm_strchr(const char* s, int c) asm("strchr"); char* vm_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* vm_strrchr(const char* s, int c) asm("strrchr"); char* vm_strrchr(const char* s, int c) { char* r = nullptr; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
char* vm_strstr(const char* s, const char* t) asm("strstr"); char* vm_strstr(const char* s, const char* t) { size_t n = strlen(t); for (;; s++) { if (!strncmp(s, t, n)) return (char*)s; if (!*s) return nullptr; } }
long __isoc23_strtol(const char* s, char** e, int base) noexcept; 
long __isoc23_strtol(const char* s, char** e, int base) noexcept { const char* p = s; while (*p == ' ' || (unsigned)(*p - 9) < 5u) p++; bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; p++; } if (base == 0) base = 10; long v = 0; const char* st = p; while ((unsigned)(*p - '0') <= 9u && (*p - '0') < base) { v = v * base + (*p - '0'); p++; } if (e) *e = (char*)(p == st ? s : p); return neg ? -v : v; }
long vm_strtol(const char* s, char** e, int b) asm("strtol"); long vm_strtol(const char* s, char** e, int b) { return __isoc23_strtol(s, e, b); }
int vm_atoi(const char* s) asm("atoi"); int vm_atoi(const char* s) { return (int)__isoc23_strtol(s, nullptr, 10); }
long vm_atol(const char* s) asm("atol"); long vm_atol(const char* s) { return __isoc23_strtol(s, nullptr, 10); }
#define CT(n, e) int vmc_##n(int c) asm(#n); int vmc_##n(int c) { return e; }
CT(isspace, (c == ' ') | ((unsigned)(c - 9) < 5u)) CT(isdigit, (unsigned)(c - '0') <= 9u) CT(isupper, (unsigned)(c - 'A') < 26u) CT(islower, (unsigned)(c - 'a') < 26u) CT(isalpha, ((unsigned)(c - 'a') < 26u) | ((unsigned)(c - 'A') < 26u)) CT(isalnum, ((unsigned)(c - 'a') < 26u) | ((unsigned)(c - 'A') < 26u) | ((unsigned)(c - '0') <= 9u)) CT(ispunct, ((unsigned)(c - 33) < 94u) & !(((unsigned)(c - 'a') < 26u) | ((unsigned)(c - 'A') < 26u) | ((unsigned)(c - '0') <= 9u)))
CT(tolower, (unsigned)(c - 'A') < 26u ? c + 32 : c) CT(toupper, (unsigned)(c - 'a') < 26u ? c - 32 : c)
unsigned long __isoc23_strtoul(const char* s, char** e, int base) noexcept { return (unsigned long)__isoc23_strtol(s, e, base); }
int* __errno_location() noexcept { static int e; return &e; }
static int vm_isspace(int c) { return c == ' ' || (unsigned)(c - 9) < 5u; }
}
// ---- printf family (subset)
struct Out { char* b; size_t cap, n; FILE* f; };
static void oput(Out& o, const char* p, size_t n) { if (o.f) fwrite(p, 1, n, o.f); else for (size_t i = 0; i < n; i++) if (o.n + i + 1 < o.cap) o.b[o.n + i] = p[i]; o.n += n; }
static int vfmt(Out& o, const char* f, va_list ap) {
  if (o.f == stderr || o.f == stdout) return 0;
  for (; *f; f++) {
    if (*f != '%') { oput(o, f, 1); continue; }
    char spec[32]; int n = 0; spec[n++] = *f++; bool zero = false, left = false; int width = 0, prec = -1; int lng = 0;
    while (*f == '-' || *f == '0' || *f == '+' || *f == ' ' || *f == '#') { if (*f == '0') zero = true; if (*f == '-') left = true; if (n < 20) spec[n++] = *f; f++; }
    while (*f >= '0' && *f <= '9') { width = width * 10 + (*f - '0'); if (n < 20) spec[n++] = *f; f++; }
    if (*f == '.') { if (n < 20) spec[n++] = *f; f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') { prec = prec * 10 + (*f - '0'); if (n < 20) spec[n++] = *f; f++; } }
    while (*f == 'l' || *f == 'z' || *f == 'h') { if (*f != 'h') lng++; f++; }
    switch (*f) {
    case '%': oput(o, "%", 1); break;
    case 'c': { char c = (char)va_arg(ap, int); oput(o, &c, 1); break; }
    case 's': { const char* s = va_arg(ap, const char*); size_t l = strlen(s); if (prec >= 0 && (size_t)prec < l) l = prec; if (!left) for (size_t i = l; i < (size_t)width; i++) oput(o, " ", 1); oput(o, s, l); if (left) for (size_t i = l; i < (size_t)width; i++) oput(o, " ", 1); break; }
    case 'd': case 'i': case 'u': case 'x': { unsigned long v; bool neg = false; unsigned base = *f == 'x' ? 16 : 10; if (*f == 'd' || *f == 'i') { long s = lng ? va_arg(ap, long) : va_arg(ap, int); neg = s < 0; v = neg ? 0ul - (unsigned long)s : s; } else v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); char b[32]; int i = 32; do { unsigned d = v % base; b[--i] = d < 10 ? '0' + d : 'a' + d - 10; v /= base; } while (v); int len = 32 - i + neg; if (neg && zero) oput(o, "-", 1); if (!left) for (int k = len; k < width; k++) oput(o, zero ? "0" : " ", 1); if (neg && !zero) oput(o, "-", 1); oput(o, b + i, 32 - i); if (left) for (int k = len; k < width; k++) oput(o, " ", 1); break; }
    case 'f': case 'g': case 'e': { char b[512]; spec[n++] = *f; spec[n] = 0; int k = __vm_fmtd(b, spec, va_arg(ap, double)); oput(o, b, k); break; }
    case 'p': oput(o, "0x0", 3); break;
    default: __sym_fail("printf format not modelled");
    }
  }
  if (!o.f && o.cap) o.b[o.n < o.cap ? o.n : o.cap - 1] = 0; return (int)o.n;
}
extern "C" {
int fprintf(FILE* s, const char* f, ...) { va_list ap; va_start(ap, f); Out o{nullptr, 0, 0, s}; int r = vfmt(o, f, ap); va_end(ap); return r; }
int printf(const char*, ...) { return 0; }
int sprintf(char* b, const char* f, ...) noexcept { va_list ap; va_start(ap, f); Out o{b, (size_t)1 << 40, 0, nullptr}; int r = vfmt(o, f, ap); va_end(ap); return r; }
int snprintf(char* b, size_t n, const char* f, ...) noexcept { va_list ap; va_start(ap, f); Out o{b, n, 0, nullptr}; int r = vfmt(o, f, ap); va_end(ap); return r; }
int vsnprintf(char* b, size_t n, const char* f, va_list ap) noexcept { Out o{b, n, 0, nullptr}; return vfmt(o, f, ap); }
// sscanf subset: %d %u %f %lf %s and literals
int __isoc23_sscanf(const char* s, const char* f, ...) noexcept {
  va_list ap; va_start(ap, f); int got = 0; const char* p = s;
  for (; *f; f++) {
    if (vm_isspace(*f)) { while (vm_isspace((unsigned char)*p)) p++; continue; }
    if (*f != '%') { if (*p != *f) break; p++; continue; }
    f++; int lng = 0; while (*f == 'l') { lng++; f++; }
    while (vm_isspace((unsigned char)*p)) p++; if (!*p) { if (!got) got = -1; break; }
    if (*f == 'd' || *f == 'u') { char* e; long v = __isoc23_strtol(p, &e, 10); if (e == p) break; p = e; if (lng) *va_arg(ap, long*) = v; else *va_arg(ap, int*) = (int)v; got++; }
    else if (*f == 'f' || *f == 'g') { char* e; double d = strtod(p, &e); if (e == p) break; p = e; if (lng) *va_arg(ap, double*) = d; else *va_arg(ap, float*) = (float)d; got++; }
    else if (*f == 's') { char* q = va_arg(ap, char*); while (*p && !vm_isspace((unsigned char)*p)) *q++ = *p++; *q = 0; got++; }
    else if (*f == 'c') { *va_arg(ap, char*) = *p++; got++; }
    else __sym_fail("scanf format not modelled");
  }
  va_end(ap); return got;
}
// ---- misc
static unsigned long rstate = 12345; int rand() noexcept { rstate = rstate * 6364136223846793005ul + 1442695040888963407ul; return (int)((rstate >> 33) & 0x7fffffff); } void srand(unsigned s) noexcept { rstate = s; }
time_t time(time_t* t) noexcept { if (t) *t = 1000; return 1000; } clock_t clock() noexcept { return 0; }
int gettimeofday(struct timeval* tv, void*) noexcept { tv->tv_sec = 1000; tv->tv_usec = 0; return 0; }
char* getenv(const char*) noexcept { return nullptr; } int system(const char*) { __sym_fail("system() called"); return -1; }
// ---- pthread: one thread; lock discipline is tracked
int vm_locks_held = 0; int vm_lock_ops = 0; int vm_lock_err = 0; pthread_mutex_t* vm_held[64]; int vm_order_n = 0; void (*vm_lock_hook)(pthread_mutex_t*, int) = nullptr;
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) noexcept { m->__data.__lock = 0; return 0; } int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { vm_lock_ops++; if (vm_lock_hook) vm_lock_hook(m, 1); if (m->__data.__lock) { __sym_fail("deadlock: mutex locked twice by one thread"); } m->__data.__lock = 1; if (vm_locks_held < 64) vm_held[vm_locks_held] = m; vm_locks_held++; return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (m->__data.__lock) return EBUSY; return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (vm_lock_hook) vm_lock_hook(m, 0); if (!m->__data.__lock) { __sym_fail("unlock of a mutex that is not locked"); } m->__data.__lock = 0; int k = -1; for (int i = 0; i < vm_locks_held; i++) if (vm_held[i] == m) k = i; for (int i = k; k >= 0 && i + 1 < vm_locks_held; i++) vm_held[i] = vm_held[i + 1]; vm_locks_held--; return 0; }
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) noexcept { return 0; } int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; } int pthread_cond_signal(pthread_cond_t*) noexcept { return 0; } int pthread_cond_broadcast(pthread_cond_t*) noexcept { return 0; }
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*) { __sym_fail("pthread_cond_wait would block"); return 0; }
}

// Low-level harness interface; implemented natively by the VM and by rt/native.cc for replay.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t __sym_bits(const char* name, unsigned width);
int64_t __sym_range(const char* name, int64_t lo, int64_t hi);
int64_t __sym_choice(const char* name, int64_t lo, int64_t hi);
double __sym_fix(const char* name, int64_t lo, int64_t hi, int k);
void __sym_abslog(int k);
void __sym_assume(int c);
void __sym_check(int c, const char* label);
void __sym_cover(const char* label);
void __sym_observe(uint64_t v);
uint64_t __sym_conc(uint64_t v);
double __sym_concd(double v);
int __sym_decide(int c);
int __sym_issym(uint64_t v);
int __sym_and(int a, int b);
int __sym_or(int a, int b);
uint64_t __sym_ite(int c, uint64_t a, uint64_t b);
double __sym_ited(int c, double a, double b);
void __sym_fail(const char* label);
void __sym_stop();
int __sym_vm();
void __sym_print(const char*);
void __sym_printi(const char*, int64_t);
void vfs_put(const char* name, const char* p, size_t len);
long vfs_len(const char* name);
const char* vfs_ptr(const char* name);
}

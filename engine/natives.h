// Native models: the harness interface, allocation, memory primitives, math, exceptions, intrinsics.
#define NAT(name) static void nat_##name(CallSite* cs, Val* a, Val* r)
NAT(sym_bits) { std::string n = cstr(conc(a[0])); unsigned w = conc(a[1]); Val v = symInput(n, w, false, 0, 0); if (v.e) v.e = X.zext(v.e, 64); r[0] = v; }
NAT(sym_range) { std::string n = cstr(conc(a[0])); int64_t lo = (int64_t)conc(a[1]), hi = (int64_t)conc(a[2]); unsigned w = ExprCtx::bitsFor(lo, hi); if (w < 2) w = 2; Val v = symInput(n, w, true, lo, hi); if (v.e) v.e = X.sext(v.e, 64); else v.v = (uint64_t)sx(v.v, w); r[0] = v; }
NAT(sym_choice) { std::string n = cstr(conc(a[0])); int64_t lo = (int64_t)conc(a[1]), hi = (int64_t)conc(a[2]); unsigned w = ExprCtx::bitsFor(lo, hi); if (w < 2) w = 2; Val v = symInput(n, w, true, lo, hi); uint64_t c = conc(v); r[0] = Val{(uint64_t)sx(c, w), nullptr}; }
NAT(sym_fix) { std::string n = cstr(conc(a[0])); int64_t lo = (int64_t)conc(a[1]), hi = (int64_t)conc(a[2]); int k = (int)conc(a[3]); unsigned w = ExprCtx::bitsFor(lo, hi); if (w < 2) w = 2; Val v = symInput(n, w, true, lo, hi); if (v.e) r[0] = fromE(X.lane(v.e, k, 64)); else r[0] = DV(std::ldexp((double)sx(v.v, w), -k)); }
NAT(sym_assume) { Val v = a[0]; if (!v.e) { if (!(v.v & 1)) finish("assume"); return; } E c = v.e; if (c->w != 1) c = X.not_(X.bin(KEq, c, X.cst(0, c->w))); assume(c); }
NAT(sym_check) { std::string l = cstr(conc(a[1])); Val v = a[0]; if (v.e && v.e->w != 1) v = fromE(X.not_(X.bin(KEq, v.e, X.cst(0, v.e->w)))); else if (!v.e) v.v = v.v != 0; checkCond(v, l); }
NAT(sym_cover) { coverHit(cstr(conc(a[0]))); }
NAT(sym_observe) { observations.push_back(a[0]); }
NAT(sym_conc) { Val v = a[0]; r[0] = Val{conc(v), nullptr}; }
NAT(sym_concd) { Val v = a[0]; r[0] = Val{conc(v), nullptr}; }
NAT(sym_decide) { Val v = a[0]; if (!v.e) { r[0] = Val{(uint64_t)(v.v != 0), nullptr}; return; } E c = v.e; if (c->w != 1) c = X.not_(X.bin(KEq, c, X.cst(0, c->w))); r[0] = Val{(uint64_t)decide(c), nullptr}; }
NAT(sym_issym) { r[0] = Val{(uint64_t)(a[0].e != nullptr), nullptr}; }
// value-level boolean combinators (no path split)
static E boolE(const Val& v) { E c = toE(v, 32); return c->w == 1 ? c : X.not_(X.bin(KEq, c, X.cst(0, c->w))); }
NAT(sym_and) { r[0] = fromE(X.zext(X.bin(KAnd, boolE(a[0]), boolE(a[1])), 32)); }
NAT(sym_or) { r[0] = fromE(X.zext(X.bin(KOr, boolE(a[0]), boolE(a[1])), 32)); }
NAT(sym_ite) { if (!a[0].e) { r[0] = (a[0].v & 0xffffffffu) ? a[1] : a[2]; return; } r[0] = fromE(X.ite(boolE(a[0]), toE(a[1], 64), toE(a[2], 64))); }
NAT(sym_ited) { nat_sym_ite(cs, a, r); }
NAT(sym_fail) { fault(cstr(conc(a[0])), "failure reported by harness or runtime: " + cstr(conc(a[0]))); }
NAT(sym_stop) { finish("ok"); }
NAT(sym_vm) { r[0] = Val{1, nullptr}; }
NAT(sym_print) { if (verbose || concreteMode) fprintf(stderr, "%s\n", cstr(conc(a[0])).c_str()); }
NAT(sym_printi) { if (verbose || concreteMode) { if (a[1].e) fprintf(stderr, "%s = <sym>\n", cstr(conc(a[0])).c_str()); else fprintf(stderr, "%s = %lld\n", cstr(conc(a[0])).c_str(), (long long)a[1].v); } }
NAT(malloc) { uint64_t n = conc(a[0]); r[0] = Val{M->halloc(n), nullptr}; if (!r[0].v) fault("allocation", "allocation of " + std::to_string(n) + " bytes fails"); }
NAT(opnew) { nat_malloc(cs, a, r); }
NAT(opnewal) { uint64_t n = conc(a[0]); r[0] = Val{M->halloc(n, conc(a[1])), nullptr}; if (!r[0].v) fault("allocation", "allocation of " + std::to_string(n) + " bytes fails"); }
NAT(calloc) { uint64_t n = conc(a[0]) * conc(a[1]); uint64_t p = M->halloc(n); if (!p) fault("allocation", "calloc fails"); memset((void*)p, 0, n); r[0] = Val{p, nullptr}; }
NAT(free) { uint64_t p = conc(a[0]); if (!p) return; int q = M->hfree(p); if (q == 1) fault("memory-safety", "free of a pointer that is not an allocated block: " + hex(p)); if (q == 2) fault("memory-safety", "double free of " + hex(p)); }
NAT(realloc) { uint64_t p = conc(a[0]), n = conc(a[1]); uint64_t q = M->halloc(n); if (p) { auto it = M->heap.find(p); if (it == M->heap.end()) fault("memory-safety", "realloc of invalid pointer"); uint64_t o = it->second; memCopy(q, p, o < n ? o : n); M->hfree(p); } r[0] = Val{q, nullptr}; }
NAT(posix_memalign) { uint64_t q = M->halloc(conc(a[2]), conc(a[1])); storeC(conc(a[0]), 8, Val{q, nullptr}, 64); r[0] = Val{0, nullptr}; }
NAT(memcpy) { uint64_t d = conc(a[0]); memCopy(d, conc(a[1]), conc(a[2])); r[0] = Val{d, nullptr}; }
NAT(memset) { uint64_t d = conc(a[0]); memSet(d, a[1], conc(a[2])); r[0] = Val{d, nullptr}; }
NAT(memcmp) { r[0] = memCmp(conc(a[0]), conc(a[1]), conc(a[2])); }
NAT(strlen) { uint64_t s = conc(a[0]), p = s; for (;; p++) { Val v = loadC(p, 1, 8); if (v.e) { if (decide(X.bin(KEq, v.e, X.cst(0, 8)))) break; } else if (!v.v) break; } r[0] = Val{p - s, nullptr}; }
NAT(memchr) { uint64_t s = conc(a[0]), n = conc(a[2]); E c = X.extract(toE(a[1], 32), 0, 8); for (uint64_t i = 0; i < n; i++) { Val v = loadC(s + i, 1, 8); E q = X.bin(KEq, toE(v, 8), c); if (decide(q)) { r[0] = Val{s + i, nullptr}; return; } } r[0] = Val{0, nullptr}; }
NAT(abort) { fault("abort", "abort() called"); }
NAT(exit) { finish("ok"); }
NAT(assert_fail) { fault("assert", "assert failed: " + cstr(conc(a[0]))); }
NAT(nop) { }
NAT(nop0) { r[0] = Val{0, nullptr}; }
NAT(pure) { fault("pure-virtual", "pure virtual call"); }
#define M1(fn) NAT(fn) { r[0] = DV(::fn(D(a[0]))); } NAT(fn##f) { r[0] = FV(::fn##f(Fl(a[0]))); }
#define M2(fn) NAT(fn) { double x = D(a[0]); r[0] = DV(::fn(x, D(a[1]))); } NAT(fn##f) { float x = Fl(a[0]); r[0] = FV(::fn##f(x, Fl(a[1]))); }
// log and exp. Of a concrete value they are computed. In the abstract mode (sym::abslog) the logarithm and the exponential of
// a symbolic value are fresh values constrained to be monotone functions: a superset of the real behaviours.
static int absLog = 0; struct MonoFn { std::vector<std::pair<E, E>> memo; }; static MonoFn monoLog, monoExp;
static void relate(MonoFn& f, E x, E y) {
  for (auto& p : f.memo) { if (x->k == KConst && p.first->k == KConst) continue; E le = X.fcmp(FP_OLE, x, p.first), ge = X.fcmp(FP_OLE, p.first, x);
    assume(X.bin(KOr, X.not_(le), X.fcmp(FP_OLE, y, p.second))); assume(X.bin(KOr, X.not_(ge), X.fcmp(FP_OLE, p.second, y))); }
  f.memo.push_back({x, y}); }
static E monotone(MonoFn& f, const char* name, E x, int64_t lo, int64_t hi) {
  for (auto& p : f.memo) if (p.first == x) return p.second;
  unsigned w = ExprCtx::bitsFor(lo, hi); Val v = symInput(name, w, true, lo, hi); E y = X.lane(v.e, absLog, 64);
  relate(f, x, y); return y; }
static double known(MonoFn& f, double x, double y) { if (absLog && std::isfinite(x) && std::isfinite(y)) { E e = X.cst(ExprCtx::fromdbl(x, 64), 64); for (auto& p : f.memo) if (p.first == e) return y; relate(f, e, X.cst(ExprCtx::fromdbl(y, 64), 64)); } return y; }
static double quant(double d) { return absLog && std::isfinite(d) && std::fabs(d) < 1e6 ? std::ldexp(std::nearbyint(std::ldexp(d, absLog)), -absLog) : d; }
NAT(sym_abslog) { absLog = concreteMode ? 0 : (int)conc(a[0]); }
static void pickBranch(Val& v) { while (v.e && v.e->k == KIte) { E x = decide(v.e->a) ? v.e->b : v.e->c; v = fromE(x); } }
NAT(log) { if (absLog) pickBranch(a[0]); if (absLog && a[0].e && a[0].e->k == KLane) { E x = a[0].e; if (decide(X.fcmp(FP_OLE, x, X.cst(0, 64)))) { r[0] = DV(-INFINITY); return; } bool le1 = decide(X.fcmp(FP_OLE, x, X.cst(ExprCtx::fromdbl(1, 64), 64)));
    r[0] = fromE(le1 ? monotone(monoLog, "~log", x, -(256ll << absLog), 0) : monotone(monoLog, "~log", x, 0, 256ll << absLog)); return; } double d = D(a[0]); r[0] = DV(known(monoLog, d, quant(::log(d)))); }
NAT(exp) { if (absLog) pickBranch(a[0]); if (absLog && a[0].e && a[0].e->k == KLane) { E x = a[0].e; bool le0 = decide(X.fcmp(FP_OLE, x, X.cst(0, 64)));
    r[0] = fromE(le0 ? monotone(monoExp, "~exp", x, 1, 1ll << absLog) : monotone(monoExp, "~exp", x, 1ll << absLog, 256ll << absLog)); return; } double d = D(a[0]); r[0] = DV(known(monoExp, d, quant(::exp(d)))); }
NAT(logf) { r[0] = FV(::logf(Fl(a[0]))); } NAT(expf) { r[0] = FV(::expf(Fl(a[0]))); }
M1(log10) M1(log2) M1(log1p) M1(expm1) M1(sin) M1(cos) M1(tan) M1(atan) M1(tanh) M1(lgamma) M1(cbrt) M1(exp2) M1(erf) M1(erfc) M1(tgamma) M1(sinh) M1(cosh) M1(asin) M1(acos) M2(pow) M2(fmod) M2(atan2)
NAT(sqrt) { r[0] = a[0].e ? fromE(X.fsqrt(a[0].e)) : DV(::sqrt(D(a[0]))); } NAT(sqrtf) { r[0] = a[0].e ? fromE(X.fsqrt(a[0].e)) : FV(::sqrtf(Fl(a[0]))); }
NAT(fabs) { r[0] = fromE(X.fabs_(toE(a[0], 64))); } NAT(fabsf) { r[0] = fromE(X.fabs_(toE(a[0], 32))); }
NAT(floor) { r[0] = fromE(X.fround(FR_FLOOR, toE(a[0], 64))); } NAT(floorf) { r[0] = fromE(X.fround(FR_FLOOR, toE(a[0], 32))); }
NAT(ceil) { r[0] = fromE(X.fround(FR_CEIL, toE(a[0], 64))); } NAT(ceilf) { r[0] = fromE(X.fround(FR_CEIL, toE(a[0], 32))); }
NAT(trunc) { r[0] = fromE(X.fround(FR_TRUNC, toE(a[0], 64))); }
NAT(rint) { r[0] = fromE(X.fround(FR_NEAR, toE(a[0], 64))); }
NAT(round) { r[0] = DV(::round(D(a[0]))); } NAT(roundf) { r[0] = FV(::roundf(Fl(a[0]))); }
NAT(fmax) { E x = toE(a[0], 64), y = toE(a[1], 64); if (!a[0].e && !a[1].e) { double p = D(a[0]); r[0] = DV(::fmax(p, D(a[1]))); } else r[0] = fromE(X.ite(X.fcmp(FP_OLT, x, y), y, x)); }
NAT(fmin) { E x = toE(a[0], 64), y = toE(a[1], 64); if (!a[0].e && !a[1].e) { double p = D(a[0]); r[0] = DV(::fmin(p, D(a[1]))); } else r[0] = fromE(X.ite(X.fcmp(FP_OLT, y, x), y, x)); }
NAT(ldexp) { double x = D(a[0]); r[0] = DV(::ldexp(x, (int)conc(a[1]))); }
NAT(frexp) { int e; double x = ::frexp(D(a[0]), &e); storeC(conc(a[1]), 4, Val{(uint64_t)(uint32_t)e, nullptr}, 32); r[0] = DV(x); }
NAT(isnan) { r[0] = fromE(X.zext(X.fcmp(FP_UNO, toE(a[0], 64), toE(a[0], 64)), 32)); }
// formats one double with a concrete format; returns length
NAT(fmtd) { std::string f = cstr(conc(a[1])); char b[512]; int n = snprintf(b, sizeof b, f.c_str(), D(a[2])); if (n > 500) n = 500; uint64_t d = conc(a[0]); for (int i = 0; i <= n; i++) storeC(d + i, 1, Val{(uint64_t)(uint8_t)b[i], nullptr}, 8); r[0] = Val{(uint64_t)n, nullptr}; }
NAT(strtod) { uint64_t s = conc(a[0]); std::string t; // stop at the first byte that cannot belong to a number
  for (uint64_t p = s;; p++) { Val v = loadC(p, 1, 8); uint64_t c = conc(v); if (!c) break; t += (char)c; if (!(isalnum((int)c) || c == '.' || c == '+' || c == '-' || isspace((int)c))) break; }
  char* e; double d = ::strtod(t.c_str(), &e); if (a[1].e || a[1].v) storeC(conc(a[1]), 8, Val{s + (e - t.c_str()), nullptr}, 64); r[0] = DV(d); }
NAT(strtof) { nat_strtod(cs, a, r); r[0] = FV((float)ExprCtx::todbl(r[0].v, 64)); }
NAT(cxa_alloc) { uint64_t p = M->halloc(conc(a[0])); r[0] = Val{p, nullptr}; }
NAT(cxa_free) { M->hfree(conc(a[0])); }
NAT(cxa_throw) { uint64_t p = conc(a[0]); excs[p] = ExcObj{conc(a[1]), conc(a[2]), 0}; curExc = p; uncaughtCnt++; doThrow(); }
NAT(cxa_begin) { uint64_t p = conc(a[0]); excs[p].caught++; caughtStack.push_back(p); if (uncaughtCnt) uncaughtCnt--; r[0] = Val{p, nullptr}; }
NAT(cxa_end) { if (caughtStack.empty()) return; uint64_t p = caughtStack.back(); caughtStack.pop_back(); ExcObj& x = excs[p]; if (--x.caught == 0 && p != curExc) {} }
NAT(cxa_rethrow) { if (caughtStack.empty()) fault("uncaught-exception", "rethrow without exception"); curExc = caughtStack.back(); uncaughtCnt++; doThrow(); }
NAT(uncaught) { r[0] = Val{(uint64_t)uncaughtCnt, nullptr}; }
NAT(terminate) { fault("uncaught-exception", "std::terminate called"); }
NAT(dyncast) { uint64_t p = conc(a[0]); uint64_t want = conc(a[2]); if (!p) return; uint64_t vt = loadC(p, 8, 64).v; int64_t top = (int64_t)loadC(vt - 16, 8, 64).v; uint64_t ti = loadC(vt - 8, 8, 64).v; int64_t off; if (dynOff(ti, want, off)) r[0] = Val{p + top + off, nullptr}; else r[0] = Val{0, nullptr}; }
NAT(guard_acq) { uint64_t g = conc(a[0]); r[0] = Val{(uint64_t)(loadC(g, 1, 8).v ? 0 : 1), nullptr}; }
NAT(guard_rel) { storeC(conc(a[0]), 1, Val{1, nullptr}, 8); }
NAT(qsort) { uint64_t b = conc(a[0]), n = conc(a[1]), sz = conc(a[2]); Function* f = resolveFn(a[3]); uint64_t t = M->halloc(sz);
  for (uint64_t i = 1; i < n; i++) for (uint64_t j = i; j > 0; j--) { Val c = callGuest(f, {Val{b + (j - 1) * sz, nullptr}, Val{b + j * sz, nullptr}}); Val g = doICmp_(c); bool gt = g.e ? decide(g.e) : g.v & 1; if (!gt) break; memCopy(t, b + (j - 1) * sz, sz); memCopy(b + (j - 1) * sz, b + j * sz, sz); memCopy(b + j * sz, t, sz); } M->hfree(t); }

static void intrinsic(CallSite* cs, Val* a, Val* r) {
  unsigned w = cs->argw.empty() ? 64 : cs->argw[0]; unsigned n = cs->nret;
  auto b2 = [&](Kind k, unsigned i) { return X.bin(k, toE(a[i], w), toE(a[i + n], w)); };
  auto isC2 = [&]() { return !a[0].e && !a[1].e; };
  switch (cs->intr) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memCopy(conc(a[0]), conc(a[1]), conc(a[2])); return;
  case Intrinsic::memset: memSet(conc(a[0]), a[1], conc(a[2])); return;
  case Intrinsic::umax: for (unsigned i = 0; i < n; i++) r[i] = fromE(X.ite(b2(KUlt, i), toE(a[i + n], w), toE(a[i], w))); return;
  case Intrinsic::umin: for (unsigned i = 0; i < n; i++) r[i] = fromE(X.ite(b2(KUlt, i), toE(a[i], w), toE(a[i + n], w))); return;
  case Intrinsic::smax: for (unsigned i = 0; i < n; i++) r[i] = fromE(X.ite(b2(KSlt, i), toE(a[i + n], w), toE(a[i], w))); return;
  case Intrinsic::smin: for (unsigned i = 0; i < n; i++) r[i] = fromE(X.ite(b2(KSlt, i), toE(a[i], w), toE(a[i + n], w))); return;
  case Intrinsic::abs: { E x = toE(a[0], w); r[0] = fromE(X.ite(X.bin(KSlt, x, X.cst(0, w)), X.bin(KSub, X.cst(0, w), x), x)); return; }
  case Intrinsic::uadd_with_overflow: { E x = toE(a[0], w), y = toE(a[1], w), s = X.bin(KAdd, x, y); r[0] = fromE(s); r[1] = fromE(X.bin(KUlt, s, x)); return; }
  case Intrinsic::usub_with_overflow: { E x = toE(a[0], w), y = toE(a[1], w); r[0] = fromE(X.bin(KSub, x, y)); r[1] = fromE(X.bin(KUlt, x, y)); return; }
  case Intrinsic::umul_with_overflow: { E x = toE(a[0], w), y = toE(a[1], w); r[0] = fromE(X.bin(KMul, x, y)); if (isC2()) { unsigned __int128 p = (unsigned __int128)(a[0].v & maskw(w)) * (a[1].v & maskw(w)); r[1] = Val{(uint64_t)(p > maskw(w)), nullptr}; } else { if (x->k == KConst) std::swap(x, y); if (y->k != KConst) unsupported("symbolic umul overflow"); r[1] = y->val ? fromE(X.bin(KUlt, X.cst(maskw(w) / y->val, w), x)) : Val{0, nullptr}; } return; }
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: { bool ad = cs->intr == Intrinsic::sadd_with_overflow; E x = toE(a[0], w), y = toE(a[1], w), s = X.bin(ad ? KAdd : KSub, x, y), z = X.cst(0, w); r[0] = fromE(s); E nx = X.bin(KSlt, x, z), ny = X.bin(KSlt, y, z), ns = X.bin(KSlt, s, z); E same = ad ? X.bin(KEq, nx, ny) : X.bin(KXor, nx, ny); r[1] = fromE(X.bin(KAnd, same, X.bin(KXor, ns, nx))); return; }
  case Intrinsic::smul_with_overflow: { if (!isC2()) unsupported("symbolic smul overflow"); __int128 p = (__int128)sx(a[0].v, w) * sx(a[1].v, w); r[0] = Val{(uint64_t)p & maskw(w), nullptr}; r[1] = Val{(uint64_t)(p != (__int128)sx((uint64_t)p & maskw(w), w)), nullptr}; return; }
  case Intrinsic::usub_sat: { E x = toE(a[0], w), y = toE(a[1], w); r[0] = fromE(X.ite(X.bin(KUlt, x, y), X.cst(0, w), X.bin(KSub, x, y))); return; }
  case Intrinsic::uadd_sat: { E x = toE(a[0], w), y = toE(a[1], w), s = X.bin(KAdd, x, y); r[0] = fromE(X.ite(X.bin(KUlt, s, x), X.cst(~0ull, w), s)); return; }
  case Intrinsic::ctpop: { if (!a[0].e) r[0] = Val{(uint64_t)__builtin_popcountll(a[0].v & maskw(w)), nullptr}; else { E s = X.cst(0, w); for (unsigned i = 0; i < w; i++) s = X.bin(KAdd, s, X.zext(X.extract(a[0].e, i, 1), w)); r[0] = fromE(s); } return; }
  case Intrinsic::ctlz: { if (!a[0].e) { uint64_t v = a[0].v & maskw(w); r[0] = Val{(uint64_t)(v ? __builtin_clzll(v) - (64 - w) : w), nullptr}; } else { E s = X.cst(w, w); for (unsigned i = 0; i < w; i++) s = X.ite(X.bin(KEq, X.extract(a[0].e, i, 1), X.cst(1, 1)), X.cst(w - 1 - i, w), s); r[0] = fromE(s); } return; }
  case Intrinsic::cttz: { if (!a[0].e) { uint64_t v = a[0].v & maskw(w); r[0] = Val{(uint64_t)(v ? __builtin_ctzll(v) : w), nullptr}; } else { E s = X.cst(w, w); for (int i = (int)w - 1; i >= 0; i--) s = X.ite(X.bin(KEq, X.extract(a[0].e, i, 1), X.cst(1, 1)), X.cst(i, w), s); r[0] = fromE(s); } return; }
  case Intrinsic::bswap: { E x = toE(a[0], w), s = X.extract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) s = X.concat(s, X.extract(x, i, 8)); r[0] = fromE(s); return; }
  case Intrinsic::fshl: case Intrinsic::fshr: { E x = toE(a[0], w), y = toE(a[1], w), s = toE(a[2], w); s = X.bin(KURem, s, X.cst(w, w)); E z = X.bin(KEq, s, X.cst(0, w)), inv = X.bin(KSub, X.cst(w, w), s); if (cs->intr == Intrinsic::fshl) r[0] = fromE(X.ite(z, x, X.bin(KOr, X.bin(KShl, x, s), X.bin(KLShr, y, inv)))); else r[0] = fromE(X.ite(z, y, X.bin(KOr, X.bin(KShl, x, inv), X.bin(KLShr, y, s)))); return; }
  case Intrinsic::fabs: for (unsigned i = 0; i < n; i++) r[i] = fromE(X.fabs_(toE(a[i], w))); return;
  case Intrinsic::sqrt: r[0] = fromE(X.fsqrt(toE(a[0], w))); return;
  case Intrinsic::floor: r[0] = fromE(X.fround(FR_FLOOR, toE(a[0], w))); return;
  case Intrinsic::ceil: r[0] = fromE(X.fround(FR_CEIL, toE(a[0], w))); return;
  case Intrinsic::trunc: r[0] = fromE(X.fround(FR_TRUNC, toE(a[0], w))); return;
  case Intrinsic::rint: case Intrinsic::nearbyint: r[0] = fromE(X.fround(FR_NEAR, toE(a[0], w))); return;
  case Intrinsic::round: { double d = ::round(ExprCtx::todbl(conc(a[0]), w)); r[0] = Val{ExprCtx::fromdbl(d, w), nullptr}; return; }
  case Intrinsic::fmuladd: case Intrinsic::fma: { E p = symFBin_(KFMul, toE(a[0], w), toE(a[n], w), w); r[0] = fromE(symFBin_(KFAdd, p, toE(a[2 * n], w), w)); return; }
  case Intrinsic::maxnum: { E x = toE(a[0], w), y = toE(a[1], w); r[0] = fromE(X.ite(X.fcmp(FP_OLT, x, y), y, x)); return; }
  case Intrinsic::minnum: { E x = toE(a[0], w), y = toE(a[1], w); r[0] = fromE(X.ite(X.fcmp(FP_OLT, y, x), y, x)); return; }
  case Intrinsic::copysign: { double x = ExprCtx::todbl(conc(a[0]), w), y = ExprCtx::todbl(conc(a[1]), w); r[0] = Val{ExprCtx::fromdbl(std::copysign(x, y), w), nullptr}; return; }
  case Intrinsic::log: case Intrinsic::exp: case Intrinsic::log10: case Intrinsic::log2: case Intrinsic::exp2: case Intrinsic::sin: case Intrinsic::cos: {
    double x = ExprCtx::todbl(conc(a[0]), w), y; switch (cs->intr) { case Intrinsic::log: y = w == 32 ? logf(x) : ::log(x); break; case Intrinsic::exp: y = w == 32 ? expf(x) : ::exp(x); break; case Intrinsic::log10: y = ::log10(x); break; case Intrinsic::log2: y = ::log2(x); break; case Intrinsic::exp2: y = ::exp2(x); break; case Intrinsic::sin: y = ::sin(x); break; default: y = ::cos(x); } r[0] = Val{ExprCtx::fromdbl(y, w), nullptr}; return; }
  case Intrinsic::pow: { double x = ExprCtx::todbl(conc(a[0]), w), y = ExprCtx::todbl(conc(a[1]), w); r[0] = Val{ExprCtx::fromdbl(w == 32 ? powf(x, y) : ::pow(x, y), w), nullptr}; return; }
  case Intrinsic::powi: { double x = ExprCtx::todbl(conc(a[0]), w); r[0] = Val{ExprCtx::fromdbl(::pow(x, (int)conc(a[1])), w), nullptr}; return; }
  case Intrinsic::ldexp: { double x = ExprCtx::todbl(conc(a[0]), w); r[0] = Val{ExprCtx::fromdbl(::ldexp(x, (int)conc(a[1])), w), nullptr}; return; }
  case Intrinsic::is_fpclass: { E x = toE(a[0], w); uint64_t m = conc(a[1]); if (x->k == KConst) { double d = ExprCtx::todbl(x->val, w); bool q = false; if ((m & 3) && d != d) q = true; if ((m & 0x204) && std::isinf(d) && ((m & 0x200) ? d > 0 || (m & 4) : d < 0)) q = true; if ((m & 0x60) && d == 0) q = true; r[0] = Val{(uint64_t)q, nullptr}; } else if (m == 3) r[0] = fromE(X.fcmp(FP_UNO, x, x)); else if (x->k == KLane && !(m & ~0x207ull)) r[0] = Val{0, nullptr}; else unsupported("is.fpclass"); return; }
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: r[0] = a[0]; return;
  case Intrinsic::objectsize: r[0] = Val{~0ull, nullptr}; return;
  case Intrinsic::is_constant: r[0] = Val{0, nullptr}; return;
  case Intrinsic::trap: case Intrinsic::ubsantrap: fault("trap", "trap executed");
  case Intrinsic::stacksave: r[0] = Val{0, nullptr}; return;
  case Intrinsic::vastart: { uint64_t p = conc(a[0]); storeC(p, 4, Val{48, nullptr}, 32); storeC(p + 4, 4, Val{304, nullptr}, 32); storeC(p + 8, 8, Val{stack.back().vaArea, nullptr}, 64); storeC(p + 16, 8, Val{0, nullptr}, 64); return; }
  case Intrinsic::vaend: return;
  case Intrinsic::vacopy: memCopy(conc(a[0]), conc(a[1]), 24); return;
  case Intrinsic::eh_typeid_for: { uint64_t k = conc(a[0]); auto it = tids.find(k); if (it == tids.end()) { int id = tids.size() + 1; tids[k] = id; r[0] = Val{(uint64_t)id, nullptr}; } else r[0] = Val{(uint64_t)it->second, nullptr}; return; }
  case Intrinsic::vector_reduce_add: { unsigned m = cs->args.size(); E s = toE(a[0], w); for (unsigned i = 1; i < m; i++) s = X.bin(KAdd, s, toE(a[i], w)); r[0] = fromE(s); return; }
  case Intrinsic::ptrmask: r[0] = Val{conc(a[0]) & conc(a[1]), nullptr}; return;
  case Intrinsic::threadlocal_address: r[0] = a[0]; return;
  default: unsupported("intrinsic " + cs->callee->getName().str());
  }
}
static void initNatives() {
  auto& N = natives;
  N["__sym_bits"] = nat_sym_bits; N["__sym_range"] = nat_sym_range; N["__sym_choice"] = nat_sym_choice; N["__sym_fix"] = nat_sym_fix; N["__sym_abslog"] = nat_sym_abslog; N["__sym_assume"] = nat_sym_assume; N["__sym_check"] = nat_sym_check; N["__sym_cover"] = nat_sym_cover; N["__sym_observe"] = nat_sym_observe; N["__sym_conc"] = nat_sym_conc; N["__sym_concd"] = nat_sym_concd; N["__sym_decide"] = nat_sym_decide; N["__sym_issym"] = nat_sym_issym; N["__sym_and"] = nat_sym_and; N["__sym_or"] = nat_sym_or; N["__sym_ite"] = nat_sym_ite; N["__sym_ited"] = nat_sym_ited; N["__sym_fail"] = nat_sym_fail; N["__sym_stop"] = nat_sym_stop; N["__sym_vm"] = nat_sym_vm; N["__sym_print"] = nat_sym_print; N["__sym_printi"] = nat_sym_printi;
  N["malloc"] = nat_malloc; N["_Znwm"] = N["_Znam"] = nat_opnew; N["_ZnwmRKSt9nothrow_t"] = N["_ZnamRKSt9nothrow_t"] = nat_opnew; N["_ZnwmSt11align_val_t"] = nat_opnewal; N["calloc"] = nat_calloc; N["free"] = nat_free; N["_ZdlPv"] = N["_ZdaPv"] = N["_ZdlPvm"] = N["_ZdaPvm"] = N["_ZdlPvSt11align_val_t"] = N["_ZdlPvmSt11align_val_t"] = N["_ZdlPvRKSt9nothrow_t"] = nat_free; N["realloc"] = nat_realloc; N["posix_memalign"] = nat_posix_memalign;
  N["memcpy"] = N["memmove"] = nat_memcpy; N["memset"] = nat_memset; N["memcmp"] = N["bcmp"] = nat_memcmp; N["strlen"] = nat_strlen; N["memchr"] = nat_memchr;
  N["abort"] = nat_abort; N["exit"] = N["_exit"] = nat_exit; N["__assert_fail"] = nat_assert_fail; N["__cxa_atexit"] = nat_nop0; N["__cxa_pure_virtual"] = nat_pure; N["atexit"] = nat_nop0;
#define R1(fn) N[#fn] = nat_##fn; N[#fn "f"] = nat_##fn##f;
  R1(log) R1(exp) R1(log10) R1(log2) R1(log1p) R1(expm1) R1(sin) R1(cos) R1(tan) R1(atan) R1(tanh) R1(lgamma) R1(cbrt) R1(exp2) R1(erf) R1(erfc) R1(tgamma) R1(sinh) R1(cosh) R1(asin) R1(acos) R1(pow) R1(fmod) R1(atan2) R1(sqrt) R1(fabs) R1(floor) R1(ceil) R1(round)
  N["trunc"] = nat_trunc; N["rint"] = N["nearbyint"] = nat_rint; N["fmax"] = nat_fmax; N["fmin"] = nat_fmin; N["ldexp"] = nat_ldexp; N["frexp"] = nat_frexp; N["__isnan"] = nat_isnan;
  N["__vm_fmtd"] = nat_fmtd; N["strtod"] = nat_strtod; N["strtof"] = nat_strtof; N["atof"] = [](CallSite* cs, Val* a, Val* r) { Val b[2] = {a[0], Val{0, nullptr}}; nat_strtod(cs, b, r); };
  N["__cxa_allocate_exception"] = nat_cxa_alloc; N["__cxa_free_exception"] = nat_cxa_free; N["__cxa_throw"] = nat_cxa_throw; N["__cxa_begin_catch"] = nat_cxa_begin; N["__cxa_end_catch"] = nat_cxa_end; N["__cxa_rethrow"] = nat_cxa_rethrow; N["_ZSt9terminatev"] = N["__clang_call_terminate"] = nat_terminate; N["__dynamic_cast"] = nat_dyncast; N["_ZSt18uncaught_exceptionv"] = N["_ZSt19uncaught_exceptionsv"] = nat_uncaught;
  N["__cxa_guard_acquire"] = nat_guard_acq; N["__cxa_guard_release"] = nat_guard_rel; N["qsort"] = nat_qsort;
}

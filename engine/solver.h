// Path-condition solver on top of Z3 (C API). Assertions only ever grow within a process.
#pragma once
#include "expr.h"
#include <z3.h>
#include <time.h>
#include <unordered_set>
#include <unordered_map>

static inline double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, disagree = 0; double time = 0, maxq = 0; };

struct Solver {
  ExprCtx& X; Z3_context c; Z3_solver s = nullptr; std::vector<E> asserted; size_t pushed = 0; bool fp = false;
  SolverStats st; unsigned timeoutMs = 30000; Z3_sort rm = nullptr; Z3_ast rne = nullptr; std::vector<Z3_ast> symz;
  std::unordered_set<E> known; // asserted conjuncts
  Solver(ExprCtx& x) : X(x) {
    Z3_config cfg = Z3_mk_config(); c = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(c, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "ENGINE-ERROR z3: %s\n", Z3_get_error_msg(c, e)); _exit(77); });
  }
  Z3_ast inc(Z3_ast a) { Z3_inc_ref(c, a); return a; }
  Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(c, v, Z3_mk_bv_sort(c, w)); }
  Z3_sort fsort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_64(c); }
  Z3_ast RNE() { if (!rne) rne = inc(Z3_mk_fpa_rne(c)); return rne; }
  // float-sorted ast
  Z3_ast flt(E e) {
    unsigned w = e->w; Z3_ast r;
    switch (e->k) {
    case KConst: return inc(Z3_mk_fpa_to_fp_bv(c, num(e->val, w), fsort(w)));
    case KLane: { Z3_ast i = bv(e->a); r = Z3_mk_fpa_to_fp_signed(c, RNE(), i, fsort(w)); if (e->aux) r = Z3_mk_fpa_mul(c, RNE(), r, Z3_mk_fpa_numeral_double(c, std::ldexp(1.0, -e->aux), fsort(w))); return inc(r); }
    case KFAdd: return inc(Z3_mk_fpa_add(c, RNE(), flt(e->a), flt(e->b)));
    case KFSub: return inc(Z3_mk_fpa_sub(c, RNE(), flt(e->a), flt(e->b)));
    case KFMul: return inc(Z3_mk_fpa_mul(c, RNE(), flt(e->a), flt(e->b)));
    case KFDiv: return inc(Z3_mk_fpa_div(c, RNE(), flt(e->a), flt(e->b)));
    case KFNeg: return inc(Z3_mk_fpa_neg(c, flt(e->a)));
    case KFAbs: return inc(Z3_mk_fpa_abs(c, flt(e->a)));
    case KFSqrt: return inc(Z3_mk_fpa_sqrt(c, RNE(), flt(e->a)));
    case KSIToFP: return inc(Z3_mk_fpa_to_fp_signed(c, RNE(), bv(e->a), fsort(w)));
    case KUIToFP: return inc(Z3_mk_fpa_to_fp_unsigned(c, RNE(), bv(e->a), fsort(w)));
    case KFPExt: case KFPTrunc: return inc(Z3_mk_fpa_to_fp_float(c, RNE(), flt(e->a), fsort(w)));
    case KFRound: return inc(Z3_mk_fpa_round_to_integral(c, e->aux == FR_FLOOR ? Z3_mk_fpa_rtn(c) : e->aux == FR_CEIL ? Z3_mk_fpa_rtp(c) : e->aux == FR_TRUNC ? Z3_mk_fpa_rtz(c) : RNE(), flt(e->a)));
    case KIte: return inc(Z3_mk_ite(c, bl(e->a), flt(e->b), flt(e->c)));
    default: return inc(Z3_mk_fpa_to_fp_bv(c, bv(e), fsort(w)));
    }
  }
  Z3_ast bl(E e) { // boolean view of a width-1 expression
    if (e->zb) return (Z3_ast)e->zb;
    Z3_ast r;
    switch (e->k) {
    case KConst: r = e->val ? Z3_mk_true(c) : Z3_mk_false(c); break;
    case KAnd: { Z3_ast v[2] = {bl(e->a), bl(e->b)}; r = Z3_mk_and(c, 2, v); break; }
    case KOr: { Z3_ast v[2] = {bl(e->a), bl(e->b)}; r = Z3_mk_or(c, 2, v); break; }
    case KXor: if (e->b->k == KConst) r = e->b->val ? Z3_mk_not(c, bl(e->a)) : bl(e->a); else r = Z3_mk_xor(c, bl(e->a), bl(e->b)); break;
    case KEq: if (e->a->w == 1) r = Z3_mk_iff(c, bl(e->a), bl(e->b)); else r = Z3_mk_eq(c, bv(e->a), bv(e->b)); break;
    case KUlt: r = Z3_mk_bvult(c, bv(e->a), bv(e->b)); break;
    case KUle: r = Z3_mk_bvule(c, bv(e->a), bv(e->b)); break;
    case KSlt: r = Z3_mk_bvslt(c, bv(e->a), bv(e->b)); break;
    case KSle: r = Z3_mk_bvsle(c, bv(e->a), bv(e->b)); break;
    case KIte: r = Z3_mk_ite(c, bl(e->a), bl(e->b), bl(e->c)); break;
    case KFCmp: { Z3_ast a = flt(e->a), b = flt(e->b); if (e->aux == FP_OEQ) r = Z3_mk_fpa_eq(c, a, b); else if (e->aux == FP_OLT) r = Z3_mk_fpa_lt(c, a, b); else if (e->aux == FP_OLE) r = Z3_mk_fpa_leq(c, a, b); else { Z3_ast v[2] = {Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b)}; r = Z3_mk_or(c, 2, v); } break; }
    default: r = Z3_mk_eq(c, bv(e), num(1, 1)); break;
    }
    e->zb = inc(r); return r;
  }
  Z3_ast bv(E e) {
    if (e->z) return (Z3_ast)e->z;
    Z3_ast r;
    if (e->w == 1 && e->k != KSym && e->k != KExtract && e->k != KConst) { r = Z3_mk_ite(c, bl(e), num(1, 1), num(0, 1)); e->z = inc(r); return r; }
    switch (e->k) {
    case KConst: r = num(e->val, e->w); break;
    case KSym: { char nm[32]; sprintf(nm, "s%d", (int)e->val); r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), Z3_mk_bv_sort(c, e->w)); break; }
    case KAdd: r = Z3_mk_bvadd(c, bv(e->a), bv(e->b)); break;
    case KSub: r = Z3_mk_bvsub(c, bv(e->a), bv(e->b)); break;
    case KMul: r = Z3_mk_bvmul(c, bv(e->a), bv(e->b)); break;
    case KUDiv: r = Z3_mk_bvudiv(c, bv(e->a), bv(e->b)); break;
    case KSDiv: r = Z3_mk_bvsdiv(c, bv(e->a), bv(e->b)); break;
    case KURem: r = Z3_mk_bvurem(c, bv(e->a), bv(e->b)); break;
    case KSRem: r = Z3_mk_bvsrem(c, bv(e->a), bv(e->b)); break;
    case KAnd: r = Z3_mk_bvand(c, bv(e->a), bv(e->b)); break;
    case KOr: r = Z3_mk_bvor(c, bv(e->a), bv(e->b)); break;
    case KXor: r = Z3_mk_bvxor(c, bv(e->a), bv(e->b)); break;
    case KShl: r = Z3_mk_bvshl(c, bv(e->a), bv(e->b)); break;
    case KLShr: r = Z3_mk_bvlshr(c, bv(e->a), bv(e->b)); break;
    case KAShr: r = Z3_mk_bvashr(c, bv(e->a), bv(e->b)); break;
    case KConcat: r = Z3_mk_concat(c, bv(e->a), bv(e->b)); break;
    case KExtract: r = Z3_mk_extract(c, e->val + e->w - 1, e->val, bv(e->a)); break;
    case KZExt: r = Z3_mk_zero_ext(c, e->w - e->a->w, bv(e->a)); break;
    case KSExt: r = Z3_mk_sign_ext(c, e->w - e->a->w, bv(e->a)); break;
    case KIte: r = Z3_mk_ite(c, bl(e->a), bv(e->b), bv(e->c)); break;
    case KFPToSI: r = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), flt(e->a), e->w); break;
    case KFPToUI: r = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), flt(e->a), e->w); break;
    default: r = Z3_mk_fpa_to_ieee_bv(c, flt(e)); e->hasFP = true; break;
    }
    e->z = inc(r); return r;
  }
  void add(E cnd) { // permanently assert
    if (cnd->k == KConst) return;
    if (cnd->w == 1 && cnd->k == KAnd) { add(cnd->a); add(cnd->b); return; }
    if (!known.insert(cnd).second) return;
    asserted.push_back(cnd); supp |= cnd->sm; if (cnd->hasFP) fp = true; X.learn(cnd);
  }
  void addRange(E cnd) { if (known.insert(cnd).second) asserted.push_back(cnd); } // domain of a fresh symbol: does not count as a constraint on it
  uint64_t supp = 0;
  void note(E cnd) { known.insert(cnd); X.learn(cnd); } // implied fact
  bool implied(E cnd) { return known.count(cnd) != 0; }
  static bool needFP(E e) { if (e->k == KLane) return true; return e->hasFP; }
  void mkSolver(bool wantFP) {
    s = wantFP ? Z3_mk_solver(c) : Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV")); Z3_solver_inc_ref(c, s);
    Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeoutMs);
    Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p); pushed = 0; solverFP = wantFP;
  }
  bool solverFP = false;
  void limitTime(Z3_solver z, unsigned ms) { unsigned keep = timeoutMs; timeoutMs = ms; limitTime(z); timeoutMs = keep; }
  void limitTime(Z3_solver z) { Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeoutMs); Z3_solver_set_params(c, z, p); Z3_params_dec_ref(c, p); }
  int ask(Z3_solver z, std::vector<uint64_t>& m) {
    Z3_lbool r = Z3_solver_check(c, z); if (r == Z3_L_FALSE) return 0; if (r != Z3_L_TRUE) return -1;
    Z3_model md = Z3_solver_get_model(c, z); Z3_model_inc_ref(c, md); m.assign(X.syms.size(), 0);
    unsigned n = Z3_model_get_num_consts(c, md);
    for (size_t i = 0; i < X.syms.size(); i++) m[i] = i < X.model.size() ? X.model[i] : 0;
    for (unsigned i = 0; i < n; i++) {
      Z3_func_decl d = Z3_model_get_const_decl(c, md, i); const char* nm = Z3_get_symbol_string(c, Z3_get_decl_name(c, d)); if (nm[0] != 's') continue;
      size_t ix = atoi(nm + 1); Z3_ast v = Z3_model_get_const_interp(c, md, d); uint64_t u = 0; if (v && ix < X.syms.size() && Z3_get_numeral_uint64(c, v, &u)) m[ix] = u;
    }
    Z3_model_dec_ref(c, md); return 1;
  }
  bool valid(E cnd, std::vector<uint64_t>& m) {
    X.model.swap(m); X.epoch++; bool ok = X.eval(cnd) & 1; for (size_t i = asserted.size(); ok && i-- > 0;) ok = X.eval(asserted[i]) & 1; X.model.swap(m); X.epoch++; return ok;
  }
  // ---- linear view: conditions over sums of bounded integers that cannot overflow are also decided over the integers
  std::unordered_map<E, signed char> linMemo; std::unordered_map<E, Z3_ast> linz; std::vector<char> symDom; std::vector<Z3_ast> domPending; Z3_solver ls = nullptr; size_t lpushed = 0, linSeen = 0; bool linAll = true, linFirst = false;
  static bool fitsW(__int128 l, __int128 h, unsigned w) { return l >= smin_w(w) && h <= smax_w(w); }
  bool lin(E e) { auto it = linMemo.find(e); if (it != linMemo.end()) return it->second; bool r = e->w == 1 ? linB(e) : linI(e); linMemo[e] = r; return r; }
  bool linB(E e) {
    switch (e->k) { case KConst: return true; case KAnd: case KOr: case KXor: return lin(e->a) && lin(e->b); case KEq: case KSlt: case KSle: return lin(e->a) && lin(e->b);
    case KUlt: case KUle: return e->a->w > 1 && e->a->lo >= 0 && e->b->lo >= 0 && lin(e->a) && lin(e->b); case KIte: return lin(e->a) && lin(e->b) && lin(e->c); default: return false; }
  }
  bool linI(E e) {
    __int128 al = e->a ? e->a->lo : 0, ah = e->a ? e->a->hi : 0, bl_ = e->b ? e->b->lo : 0, bh = e->b ? e->b->hi : 0;
    switch (e->k) {
    case KConst: return true; case KSym: return X.syms[e->val].ranged;
    case KAdd: return fitsW(al + bl_, ah + bh, e->w) && lin(e->a) && lin(e->b); case KSub: return fitsW(al - bh, ah - bl_, e->w) && lin(e->a) && lin(e->b);
    case KMul: { E k = e->b->k == KConst ? e->b : e->a, x = k == e->b ? e->a : e->b; if (k->k != KConst) return false; __int128 m = sx(k->val, k->w), p = m * x->lo, q = m * x->hi; return fitsW(p < q ? p : q, p < q ? q : p, e->w) && lin(x); }
    case KShl: { if (e->b->k != KConst || e->b->val >= 62) return false; __int128 m = (__int128)1 << e->b->val; return fitsW(al * m, ah * m, e->w) && lin(e->a); }
    case KSExt: return lin(e->a); case KZExt: return (e->a->w == 1 || e->a->lo >= 0) && lin(e->a);
    case KExtract: return e->val == 0 && fitsW(al, ah, e->w) && e->a->w > 1 && lin(e->a);
    case KIte: return lin(e->a) && lin(e->b) && lin(e->c); default: return false; }
  }
  Z3_ast inum(int64_t v) { return Z3_mk_int64(c, v, Z3_mk_int_sort(c)); }
  Z3_ast li(E e) {
    auto it = linz.find(e); if (it != linz.end()) return it->second; Z3_ast r;
    if (e->w == 1) switch (e->k) {
      case KConst: r = e->val ? Z3_mk_true(c) : Z3_mk_false(c); break;
      case KAnd: { Z3_ast v[2] = {li(e->a), li(e->b)}; r = Z3_mk_and(c, 2, v); break; } case KOr: { Z3_ast v[2] = {li(e->a), li(e->b)}; r = Z3_mk_or(c, 2, v); break; } case KXor: r = Z3_mk_xor(c, li(e->a), li(e->b)); break;
      case KEq: r = e->a->w == 1 ? Z3_mk_iff(c, li(e->a), li(e->b)) : Z3_mk_eq(c, li(e->a), li(e->b)); break;
      case KSlt: case KUlt: r = Z3_mk_lt(c, li(e->a), li(e->b)); break; case KSle: case KUle: r = Z3_mk_le(c, li(e->a), li(e->b)); break; default: r = Z3_mk_ite(c, li(e->a), li(e->b), li(e->c)); break; }
    else switch (e->k) {
      case KConst: r = inum(sx(e->val, e->w)); break;
      case KSym: { char nm[32]; sprintf(nm, "i%d", (int)e->val); r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), Z3_mk_int_sort(c)); if (symDom.size() <= e->val) symDom.resize(e->val + 1, 0); if (!symDom[e->val]) { symDom[e->val] = 1; domPending.push_back(inc(Z3_mk_le(c, inum(X.syms[e->val].lo), r))); domPending.push_back(inc(Z3_mk_le(c, r, inum(X.syms[e->val].hi)))); } break; }
      case KAdd: { Z3_ast v[2] = {li(e->a), li(e->b)}; r = Z3_mk_add(c, 2, v); break; } case KSub: { Z3_ast v[2] = {li(e->a), li(e->b)}; r = Z3_mk_sub(c, 2, v); break; }
      case KMul: { Z3_ast v[2] = {li(e->a), li(e->b)}; r = Z3_mk_mul(c, 2, v); break; } case KShl: { Z3_ast v[2] = {li(e->a), inum(1ll << e->b->val)}; r = Z3_mk_mul(c, 2, v); break; }
      case KSExt: r = e->a->w == 1 ? Z3_mk_ite(c, li(e->a), inum(-1), inum(0)) : li(e->a); break; case KZExt: r = e->a->w == 1 ? Z3_mk_ite(c, li(e->a), inum(1), inum(0)) : li(e->a); break;
      case KExtract: r = li(e->a); break; default: r = Z3_mk_ite(c, li(e->a), li(e->b), li(e->c)); break; }
    linz[e] = inc(r); return r;
  }
  bool linOk(E cnd) { for (; linAll && linSeen < asserted.size(); linSeen++) if (!lin(asserted[linSeen])) linAll = false; return linAll && lin(cnd); }
  int checkLin(E cnd, std::vector<uint64_t>& m) {
    if (!ls) { ls = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, ls); limitTime(ls); lpushed = 0; }
    for (; lpushed < asserted.size(); lpushed++) Z3_solver_assert(c, ls, li(asserted[lpushed]));
    Z3_ast q = li(cnd); for (Z3_ast d : domPending) Z3_solver_assert(c, ls, d); domPending.clear();
    Z3_solver_push(c, ls); Z3_solver_assert(c, ls, q); Z3_lbool r = Z3_solver_check(c, ls); int res = r == Z3_L_FALSE ? 0 : r == Z3_L_TRUE ? 1 : -1;
    if (res == 1) { Z3_model md = Z3_solver_get_model(c, ls); Z3_model_inc_ref(c, md); m.assign(X.syms.size(), 0); for (size_t i = 0; i < X.syms.size(); i++) m[i] = i < X.model.size() ? X.model[i] : 0;
      unsigned n = Z3_model_get_num_consts(c, md); for (unsigned i = 0; i < n; i++) { Z3_func_decl d = Z3_model_get_const_decl(c, md, i); const char* nm = Z3_get_symbol_string(c, Z3_get_decl_name(c, d)); if (nm[0] != 'i') continue;
        size_t ix = atoi(nm + 1); Z3_ast v = Z3_model_get_const_interp(c, md, d); int64_t u = 0; if (v && ix < X.syms.size() && Z3_get_numeral_int64(c, v, &u)) m[ix] = (uint64_t)u & maskw(X.syms[ix].w); }
      Z3_model_dec_ref(c, md); if (!valid(cnd, m)) { st.disagree++; res = -1; } }
    Z3_solver_pop(c, ls, 1); return res;
  }
  void dump(E e, std::string& o, int d) { if (!e || d > 9) { o += ".."; return; } o += "(" + std::to_string((int)e->k) + ":" + std::to_string(e->w); if (e->k == KConst) { char b[40]; sprintf(b, " %llx", (unsigned long long)e->val); o += b; } if (e->k == KSym) o += X.syms[e->val].name; if (e->k==KLane) { o += " k" + std::to_string(e->aux) + ")"; return; } if (e->a) dump(e->a, o, d + 1); if (e->b) dump(e->b, o, d + 1); if (e->c) dump(e->c, o, d + 1); o += ")"; }
  // is cnd satisfiable together with the path condition? 1 sat, 0 unsat, -1 unknown; on sat fills m
  bool recheck = false; // confirm every "unsatisfiable" with a fresh, non-incremental solver
  int check(E cnd, std::vector<uint64_t>* m) {
    double t0 = nowS(); bool wf = fp || cnd->hasFP; if (wf && getenv("FPDBG")) { static int k = 0; if (k++ < 2) { std::string q; dump(cnd, q, 0); fprintf(stderr, "FPDBG %s\n", q.c_str()); } } bool lo = !wf && linOk(cnd);
    if (linFirst && lo) { std::vector<uint64_t> ml; int r = checkLin(cnd, ml); if (r >= 0) { if (r) { st.sat++; if (m) *m = ml; } else st.unsat++; double dt = nowS() - t0; st.queries++; st.time += dt; if (dt > st.maxq) st.maxq = dt; return r; } }
    if (!s || (wf && !solverFP)) { if (s) Z3_solver_dec_ref(c, s); mkSolver(wf); }
    for (; pushed < asserted.size(); pushed++) Z3_solver_assert(c, s, bl(asserted[pushed]));
    std::vector<uint64_t> mm; Z3_solver_push(c, s); Z3_solver_assert(c, s, bl(cnd)); bool brief = lo && !linFirst; if (brief) limitTime(s, 200); int res = ask(s, mm);
    if (brief) { limitTime(s); if (res < 0) { linFirst = true; std::vector<uint64_t> ml; int r = checkLin(cnd, ml); if (r >= 0) { res = r; mm = ml; } else res = ask(s, mm); } }
    Z3_solver_pop(c, s, 1);
    // a model must satisfy the path condition and the condition asked about under our own evaluation
    if ((res == 1 && !valid(cnd, mm)) || (res == 0 && recheck)) {
      bool was1 = res == 1; Z3_solver f = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, f); limitTime(f); for (E a : asserted) Z3_solver_assert(c, f, bl(a)); Z3_solver_assert(c, f, bl(cnd));
      int r2 = ask(f, mm); Z3_solver_dec_ref(c, f); if (was1 || r2 >= 0) { if (r2 == 1 && !valid(cnd, mm)) r2 = -1; if (was1 || r2 != 0) st.disagree++; res = r2; }
    }
    if (res == 1) { st.sat++; if (m) *m = mm; } else if (res == 0) st.unsat++; else st.unknown++;
    double dt = nowS() - t0; st.queries++; st.time += dt; if (dt > st.maxq) st.maxq = dt;
    if (dt > 0.1 && lo) linFirst = true;
    return res;
  }
};

// Symbolic virtual machine for LLVM IR: executes real code on symbolic inputs,
// forking an OS process per feasible branch side, deciding feasibility and assertions with Z3.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <atomic>
#include <map>
#include <set>
#include <algorithm>
#include "solver.h"
#include "mem.h"
using namespace llvm;

// ------------------------------------------------------------------ shared state
struct Shared {
  std::atomic<int> tokens, stop; std::atomic<uint64_t> paths, ok, assumed, viol, unsup, unknown, limit, crashed, forks, instrs, queries, qsat, qunsat, stimeNs, maxqNs, checks, live, disagree;
  std::atomic<int> lock; int ncov; char cov[256][64]; std::atomic<uint64_t> covn[256];
  int nlab; char lab[256][96]; std::atomic<uint64_t> labn[256]; std::atomic<uint64_t> labq[256];
  std::atomic<uint32_t> sampleIdx; std::atomic<uint32_t> violIdx; int nuns; char uns[32][200];
  std::atomic<uint8_t> funcs[1 << 17]; std::atomic<uint32_t> forkSite[1 << 18];
  void acq() { while (lock.exchange(1)) usleep(10); } void rel() { lock.store(0); }
};
static Shared* sh;
static std::string outDir; static bool verbose = false; static uint64_t maxInstrs = 400000000ull; static unsigned maxDepth = 20000; static unsigned maxViol = 6; static double deadline = 0; static bool concreteMode = false; static std::map<std::string, std::vector<uint64_t>> concreteIn; static unsigned nSamples = 24;

// ------------------------------------------------------------------ code representation
struct Val { uint64_t v; E e; };
enum Op : uint16_t { O_BIN, O_ADD, O_SUB, O_ICMP, O_FBIN, O_FCMP, O_FNEG, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_CAST, O_MOV, O_SELECT, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_UNREACH, O_RESUME, O_LPAD, O_ATOMICRMW, O_CMPXCHG, O_VAARG, O_INDEXDYN, O_UNSUP };
enum CastK : uint8_t { C_TRUNC, C_ZEXT, C_SEXT, C_FPTOSI, C_FPTOUI, C_SITOFP, C_UITOFP, C_FPEXT, C_FPTRUNC };
struct Leaf { uint32_t off; uint8_t bytes, w; };
struct Copy { int d, s; };
struct Edge { uint32_t target; std::vector<Copy> copies; };
struct GepT { int slot; int64_t scale; uint8_t w; };
struct CFunc;
struct LPClause { uint64_t ti; bool isFilter; };
struct CallSite { Function* callee; int fslot; std::vector<int> args; std::vector<uint8_t> argw; std::vector<uint64_t> byvalSize; unsigned nfixed; int ret; unsigned nret; int normal, unwind; CFunc* cf; void* native; const CallBase* cb; FunctionType* fty; int intr; };
struct Ins { Op op; uint8_t w, w2; uint8_t sub; int d, a, b, c; uint64_t imm; void* p; uint32_t src; };
struct LPad { std::vector<LPClause> cl; bool cleanup; };
struct CFunc {
  Function* f; unsigned id; unsigned nregs = 0; std::vector<Ins> code; std::vector<Val> consts; std::vector<Edge> edges; bool ready = false; bool entered = false; unsigned nret = 0; unsigned npar = 0;
  std::map<int, LPad*> lpads; // by code index of landing pad instruction
};
struct Frame { CFunc* f; Val* regs; uint32_t pc; uint64_t sp; CallSite* cs; uint64_t vaArea; };

static LLVMContext* ctx; static Module* mod; static const DataLayout* DL;
static ExprCtx X; static Solver* S; static Mem* M;
static std::unordered_map<const Function*, CFunc*> cfuncs; static std::vector<CFunc*> cfById; static std::unordered_map<const GlobalValue*, uint64_t> gaddr; static std::unordered_map<uint64_t, Function*> faddr;
static std::vector<const Instruction*> srcs; // instruction ids
static std::vector<Frame> stack; static Val* regBase; static size_t regTop = 0; static const size_t REGMAX = 8u << 20;
static uint64_t icount = 0; static bool isPar = false; static std::vector<std::string> covHit; static std::string pathLog; static std::vector<E> dummy;
static std::vector<Val> observations; static uint64_t localChecks = 0;
struct ExcObj { uint64_t ti, dtor; int caught; };
static std::map<uint64_t, ExcObj> excs; static std::vector<uint64_t> caughtStack; static std::map<uint64_t, int> tids; static uint64_t curExc = 0; static int uncaughtCnt = 0;
static Val unwindRes[2];
static uint64_t vtClass, vtSI, vtVMI;
static uint32_t curSrc = 0;

[[noreturn]] static void finish(const char* status);
static std::string loc(const Instruction* I) {
  std::string r; if (!I) return "?"; 
  if (DILocation* L = I->getDebugLoc().get()) { r = L->getFilename().str() + ":" + std::to_string(L->getLine()); while (L->getInlinedAt()) { L = L->getInlinedAt(); r += " <- " + L->getFilename().str() + ":" + std::to_string(L->getLine()); } }
  else r = "(no line)"; return r;
}
static std::string fname(const Function* f) { return demangle(f->getName().str()); }
static std::string backtrace() {
  std::string r; int n = 0;
  for (int i = (int)stack.size() - 1; i >= 0 && n < 24; i--, n++) { Frame& f = stack[i]; uint32_t pc = f.pc ? f.pc - 1 : 0; const Instruction* I = pc < f.f->code.size() ? srcs[f.f->code[pc].src] : nullptr; r += "  #" + std::to_string(n) + " " + fname(f.f->f) + " at " + loc(I) + "\n"; }
  return r;
}
static void flushStats() {
  sh->instrs += icount; icount = 0; sh->queries += S->st.queries; sh->qsat += S->st.sat; sh->qunsat += S->st.unsat; sh->disagree += S->st.disagree; sh->stimeNs += (uint64_t)(S->st.time * 1e9); uint64_t mq = (uint64_t)(S->st.maxq * 1e9); uint64_t o = sh->maxqNs; while (mq > o && !sh->maxqNs.compare_exchange_weak(o, mq)) {}
  S->st = SolverStats(); sh->checks += localChecks; localChecks = 0;
}
static std::string jesc(const std::string& s) { std::string r; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; sprintf(b, "\\u%04x", ch); r += b; } else r += ch; } return r; }
static void writeInputs(FILE* f, const std::vector<uint64_t>& model) {
  for (size_t i = 0; i < X.syms.size(); i++) fprintf(f, "in %s %u %llu\n", X.syms[i].name.c_str(), X.syms[i].w, (unsigned long long)(model[i] & maskw(X.syms[i].w)));
}
static void writeTrace(const char* kind, const std::string& label, const std::string& detail, const std::vector<uint64_t>& model, bool obs) {
  static int k = 0; uint32_t n = !strcmp(kind, "viol") ? sh->violIdx++ : sh->sampleIdx.load(); char path[512]; snprintf(path, sizeof path, "%s/%s.%d.%u.%d", outDir.c_str(), kind, (int)getpid(), n, k++);
  std::string tmp = std::string(path) + ".tmp"; FILE* f = fopen(tmp.c_str(), "w"); if (!f) return; fprintf(f, "label %s\n", label.c_str()); writeInputs(f, model);
  if (obs) for (Val& v : observations) fprintf(f, "obs %llu\n", (unsigned long long)(v.e ? X.eval(v.e) : v.v));
  fprintf(f, "---\n%s\n", detail.c_str()); fclose(f); rename(tmp.c_str(), (std::string(path) + ".txt").c_str());
}
[[noreturn]] static void finish(const char* status) {
  flushStats(); sh->paths++;
  if (!strcmp(status, "ok")) { uint64_t n = sh->ok++; bool take = n < nSamples / 3 || ((n & (n - 1)) == 0) || (n % 977 == 5 && sh->sampleIdx < nSamples); if (take && sh->sampleIdx++ < nSamples && nSamples) writeTrace("sample", "ok", "", X.model, true); }
  else if (!strcmp(status, "assume")) sh->assumed++; else if (!strcmp(status, "viol")) sh->viol++; else if (!strcmp(status, "unsup")) sh->unsup++; else if (!strcmp(status, "unknown")) sh->unknown++; else if (!strcmp(status, "limit")) sh->limit++;
  fflush(stdout); fflush(stderr);
  sh->live--; if (isPar) sh->tokens++;
  _exit(0);
}
static void violation(const std::string& label, const std::string& what, const std::vector<uint64_t>* model = nullptr) {
  std::string d = what + "\n" + backtrace(); if (verbose) fprintf(stderr, "[viol] %s: %s\n", label.c_str(), d.c_str());
  std::vector<uint64_t> sv = X.model; if (model) { X.model = *model; X.epoch++; }
  writeTrace("viol", label, d, X.model, false); X.model = sv; X.epoch++;
  if (sh->violIdx >= maxViol) sh->stop = 1;
}
[[noreturn]] static void fault(const std::string& label, const std::string& what) { violation(label, what); finish("viol"); }
[[noreturn]] static void unsupported(const std::string& what) {
  std::string d = what + " in " + (stack.empty() ? std::string("?") : fname(stack.back().f->f)); if (verbose) fprintf(stderr, "[unsup] %s\n%s", d.c_str(), backtrace().c_str());
  sh->acq(); bool have = false; for (int i = 0; i < sh->nuns; i++) if (!strncmp(sh->uns[i], d.c_str(), 199)) have = true; if (!have && sh->nuns < 32) snprintf(sh->uns[sh->nuns++], 200, "%s", d.c_str()); sh->rel(); finish("unsup");
}
// ------------------------------------------------------------------ forking
static bool tryToken() { int t = sh->tokens.load(); while (t > 0) if (sh->tokens.compare_exchange_weak(t, t - 1)) return true; return false; }
static bool forkChild() {
  if (sh->stop.load()) { finish("limit"); }
  flushStats(); sh->forks++; if (curSrc < (1 << 18)) sh->forkSite[curSrc]++;
  bool par = tryToken(); fflush(stdout); fflush(stderr); sh->live++;
  int st; while (waitpid(-1, &st, WNOHANG) > 0) { if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) { sh->crashed++; sh->live--; } }
  pid_t p = fork(); int tries = 0; while (p < 0 && tries++ < 200) { usleep(20000); p = fork(); }
  if (p < 0) { sh->crashed++; sh->live--; if (par) sh->tokens++; return false; }
  if (p == 0) { isPar = par; return true; }
  if (!par) { while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) { sh->crashed++; sh->live--; } }
  return false;
}
static void setModel(const std::vector<uint64_t>& m) { X.model = m; X.epoch++; }
static bool decide(E c) {
  if (c->k == KConst) return c->val & 1;
  c = X.rewrite(c); if (c->k == KConst) return c->val & 1;
  if (S->implied(c)) return true; E nc = X.not_(c); if (S->implied(nc)) return false;
  bool side = X.eval(c) & 1; E taken = side ? c : nc, other = side ? nc : c;
  std::vector<uint64_t> m2; int r; unsigned si; uint64_t fv;
  if (!(c->sm & S->supp) && X.unitFlip(c, !side, si, fv)) { r = 1; m2 = X.model; m2[si] = fv; } else r = S->check(other, &m2);
  if (r == 0) { S->note(taken); return side; }
  if (r < 0) { sh->unknown++; if (verbose) fprintf(stderr, "[unknown] query at %s\n", backtrace().c_str()); S->add(taken); return side; }
  if (forkChild()) { S->add(other); setModel(m2); return !side; }
  S->add(taken); return side;
}
// add a constraint; ends the path when it is infeasible
static void assume(E c) {
  c = X.rewrite(c); if (c->k == KConst) { if (!(c->val & 1)) finish("assume"); return; }
  if (X.eval(c) & 1) { S->add(c); return; }
  std::vector<uint64_t> m2; int r = S->check(c, &m2); if (r == 0) finish("assume"); if (r < 0) { sh->unknown++; finish("unknown"); } S->add(c); setModel(m2);
}
// enumerate the feasible values of e, one per path (solver-driven, exhaustive)
static uint64_t concretize(E e) {
  for (;;) {
    e = X.rewrite(e); if (e->k == KConst) return e->val;
    uint64_t v = X.eval(e); E eq = X.bin(KEq, e, X.cst(v, e->w));
    if (decide(eq)) return v;  // decide() may come back with the other side: then try again under the new model
  }
}
static uint64_t conc(const Val& v) { return v.e ? concretize(v.e) : v.v; }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : X.cst(v.v, w); }
static inline Val fromE(E e) { if (e->k == KConst) return Val{e->val, nullptr}; return Val{0, e}; }

// ------------------------------------------------------------------ memory access
static std::string hex(uint64_t a) { char b[32]; sprintf(b, "0x%llx", (unsigned long long)a); return b; }
[[noreturn]] static void badAccess(uint64_t a, unsigned n, bool wr) {
  const char* why = "unmapped address"; if (a < 4096) why = "null pointer"; else if (M->in(a, n)) { why = "out of bounds"; for (unsigned i = 0; i < n; i++) if (M->S(a + i) == SH_FREED) why = "use after free"; }
  fault("memory-safety", std::string(wr ? "invalid write of " : "invalid read of ") + std::to_string(n) + " bytes at " + hex(a) + " (" + why + ")");
}
static inline void chk(uint64_t a, unsigned n, bool wr) {
  if (!M->in(a, n)) badAccess(a, n, wr); uint8_t* s = &M->S(a); for (unsigned i = 0; i < n; i++) if (s[i] == SH_NONE || s[i] == SH_FREED) badAccess(a, n, wr);
}
static E byteE(uint64_t a) { if (M->S(a) == SH_SYM) { E e = M->side[a - ARENA]; return e; } return X.cst(*(uint8_t*)a, 8); }
// side entries: expression of the byte. For whole-word recovery we rely on concat(extract,extract) folding.
static Val loadC(uint64_t a, unsigned n, unsigned w) {
  if (__builtin_expect(!M->in(a, n), 0)) badAccess(a, n, false);
  uint8_t* s = &M->S(a); bool sym = false;
  for (unsigned i = 0; i < n; i++) { if (__builtin_expect(s[i] != SH_OK, 0)) { if (s[i] == SH_SYM) sym = true; else badAccess(a, n, false); } }
  if (!sym) { uint64_t v = 0; switch (n) { case 1: v = *(uint8_t*)a; break; case 2: v = *(uint16_t*)a; break; case 4: v = *(uint32_t*)a; break; case 8: v = *(uint64_t*)a; break; default: memcpy(&v, (void*)a, n); } return Val{v & maskw(w), nullptr}; }
  E r = byteE(a); for (unsigned i = 1; i < n; i++) r = X.concat(byteE(a + i), r);
  if (r->w > w) r = X.extract(r, 0, w);
  return fromE(r);
}
static void storeC(uint64_t a, unsigned n, const Val& v, unsigned w) {
  if (__builtin_expect(!M->in(a, n), 0)) badAccess(a, n, true);
  uint8_t* s = &M->S(a); bool sym = false;
  for (unsigned i = 0; i < n; i++) { if (__builtin_expect(s[i] != SH_OK, 0)) { if (s[i] == SH_SYM) sym = true; else badAccess(a, n, true); } }
  if (!v.e) { switch (n) { case 1: *(uint8_t*)a = v.v; break; case 2: *(uint16_t*)a = v.v; break; case 4: *(uint32_t*)a = v.v; break; case 8: *(uint64_t*)a = v.v; break; default: memcpy((void*)a, &v.v, n); } if (sym) memset(s, SH_OK, n); return; }
  E e = v.e; if (e->w < n * 8) e = X.zext(e, n * 8);
  for (unsigned i = 0; i < n; i++) { E b = X.extract(e, 8 * i, 8); if (b->k == KConst) { s[i] = SH_OK; *(uint8_t*)(a + i) = b->val; } else { s[i] = SH_SYM; M->side[a + i - ARENA] = b; } }
}
// symbolic address read: enumerate feasible addresses, build an if-then-else over them
static Val loadS(E addr, unsigned n, unsigned w) {
  std::vector<std::pair<uint64_t, E>> vals; E rest = X.tru(); std::vector<uint64_t> save = X.model; bool complete = false;
  for (int i = 0; i < 70; i++) {
    uint64_t a = X.eval(addr); bool okk = M->in(a, n); if (okk) for (unsigned j = 0; j < n; j++) { uint8_t q = M->S(a + j); if (q == SH_NONE || q == SH_FREED) okk = false; }
    if (!okk) { // an invalid access is feasible
      badAccess(a, n, false);
    }
    vals.push_back({a, toE(loadC(a, n, w), w)}); rest = X.bin(KAnd, rest, X.not_(X.bin(KEq, addr, X.cst(a, 64))));
    std::vector<uint64_t> m2; int r = S->check(rest, &m2); if (r == 0) { complete = true; break; } if (r < 0) { sh->unknown++; break; } setModel(m2);
  }
  setModel(save);
  if (!complete) { uint64_t a = concretize(addr); return loadC(a, n, w); }
  E r = vals.back().second; for (int i = (int)vals.size() - 2; i >= 0; i--) r = X.ite(X.bin(KEq, addr, X.cst(vals[i].first, 64)), vals[i].second, r);
  return fromE(r);
}
static Val load(const Val& p, unsigned n, unsigned w) { if (p.e) return loadS(p.e, n, w); return loadC(p.v, n, w); }
static void store(const Val& p, unsigned n, const Val& v, unsigned w) { storeC(conc(p), n, v, w); }
static void memCopy(uint64_t d, uint64_t s, uint64_t n) {
  if (!n || d == s) { if (n) { chk(s, n, false); } return; }
  chk(s, n, false); chk(d, n, true);
  uint8_t *ss = &M->S(s), *ds = &M->S(d); bool sym = memchr(ss, SH_SYM, n) || memchr(ss, SH_UNINIT, n) || memchr(ds, SH_SYM, n);
  memmove((void*)d, (void*)s, n);
  if (sym) { memmove(&M->side[d - ARENA], &M->side[s - ARENA], n * sizeof(E)); memmove(ds, ss, n); }
}
static void memSet(uint64_t d, const Val& v, uint64_t n) {
  if (!n) return; chk(d, n, true); if (!v.e) { memset((void*)d, (int)(v.v & 255), n); memset(&M->S(d), SH_OK, n); } else { for (uint64_t i = 0; i < n; i++) storeC(d + i, 1, Val{0, v.e->w == 8 ? v.e : X.extract(v.e, 0, 8)}, 8); } }
static Val memCmp(uint64_t a, uint64_t b, uint64_t n) {
  if (!n) return Val{0, nullptr}; chk(a, n, false); chk(b, n, false);
  if (!memchr(&M->S(a), SH_SYM, n) && !memchr(&M->S(b), SH_SYM, n)) { int r = memcmp((void*)a, (void*)b, n); return Val{(uint64_t)(uint32_t)(r < 0 ? -1 : r > 0), nullptr}; }
  E r = X.cst(0, 32); for (int64_t i = n - 1; i >= 0; i--) { E x = byteE(a + i), y = byteE(b + i); if (x == y) continue; r = X.ite(X.bin(KEq, x, y), r, X.ite(X.bin(KUlt, x, y), X.cst(~0ull, 32), X.cst(1, 32))); }
  return fromE(r);
}
static std::string cstr(uint64_t a) { std::string r; for (;;) { Val v = loadC(a++, 1, 8); uint64_t c = conc(v); if (!c) break; r += (char)c; } return r; }

// ------------------------------------------------------------------ translation
static unsigned slotsOf(Type* t) {
  if (t->isVoidTy()) return 0; if (auto* st = dyn_cast<StructType>(t)) { unsigned n = 0; for (Type* e : st->elements()) n += slotsOf(e); return n; }
  if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements() * slotsOf(at->getElementType());
  if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements(); return 1;
}
static unsigned bw(Type* t) { if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (auto* vt = dyn_cast<FixedVectorType>(t)) return bw(vt->getElementType()); return 0; }
static bool okScalar(Type* t) { unsigned w = bw(t); return w >= 1 && w <= 64 && !t->isVectorTy(); }
static bool leaves(Type* t, uint32_t off, std::vector<Leaf>& o) {
  if (auto* st = dyn_cast<StructType>(t)) { const StructLayout* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) if (!leaves(st->getElementType(i), off + sl->getElementOffset(i), o)) return false; return true; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) if (!leaves(at->getElementType(), off + i * es, o)) return false; return true; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { unsigned ew = bw(vt->getElementType()); if (ew < 8) return false; for (unsigned i = 0; i < vt->getNumElements(); i++) o.push_back(Leaf{off + i * ew / 8, (uint8_t)(ew / 8), (uint8_t)ew}); return true; }
  if (!okScalar(t)) return false; o.push_back(Leaf{off, (uint8_t)DL->getTypeStoreSize(t), (uint8_t)bw(t)}); return true;
}
static uint64_t constScalar(const Constant* c);
static uint64_t globalAddr(const GlobalValue* g) {
  if (auto* ga = dyn_cast<GlobalAlias>(g)) return constScalar(ga->getAliasee());
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second; fprintf(stderr, "ENGINE-ERROR no address for %s\n", g->getName().str().c_str()); _exit(77);
}
static uint64_t constScalar(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return ci->getValue().getLoBits(64).getZExtValue(); return ci->getZExtValue(); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { if (c->getType()->isFloatTy() || c->getType()->isDoubleTy()) return cf->getValueAPF().bitcastToAPInt().getZExtValue(); return 0; }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto* gv = dyn_cast<GlobalValue>(c)) return globalAddr(gv);
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    unsigned w = bw(c->getType());
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "ENGINE-ERROR const gep\n"); _exit(77); } return constScalar(cast<Constant>(g->getPointerOperand())) + off.getSExtValue(); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constScalar(ce->getOperand(0)) & maskw(w);
    case Instruction::Trunc: return constScalar(ce->getOperand(0)) & maskw(w);
    case Instruction::Add: return (constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & maskw(w);
    case Instruction::Sub: return (constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & maskw(w);
    case Instruction::ICmp: { uint64_t a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1)); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; } break; }
    default: break;
    }
  }
  if (isa<BlockAddress>(c)) return 0;
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "ENGINE-ERROR constant %s\n", s.c_str()); _exit(77);
}
static void constFlat(const Constant* c, std::vector<uint64_t>& o) {
  Type* t = c->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { o.resize(o.size() + slotsOf(t), 0); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constFlat(cd->getElementAsConstant(i), o); return; }
    for (unsigned i = 0; i < c->getNumOperands(); i++) constFlat(cast<Constant>(c->getOperand(i)), o); return;
  }
  o.push_back(constScalar(c));
}
static void initConst(uint64_t a, const Constant* c) {
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { memset((void*)a, 0, DL->getTypeAllocSize(c->getType())); return; }
  Type* t = c->getType();
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy((void*)a, r.data(), r.size()); return; }
  if (auto* st = dyn_cast<StructType>(t)) { const StructLayout* sl = DL->getStructLayout(st); for (unsigned i = 0; i < c->getNumOperands(); i++) initConst(a + sl->getElementOffset(i), cast<Constant>(c->getOperand(i))); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) initConst(a + i * es, cast<Constant>(c->getOperand(i))); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) initConst(a + i * es, cast<Constant>(c->getOperand(i))); return; }
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { memset((void*)a, 0, DL->getTypeAllocSize(t)); for (unsigned i = 0; i < ci->getValue().getNumWords(); i++) ((uint64_t*)a)[i] = ci->getValue().getRawData()[i]; return; } }
  if (c->getType()->isX86_FP80Ty()) { APInt v = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt(); memcpy((void*)a, v.getRawData(), 10); return; }
  uint64_t v = constScalar(c); memcpy((void*)a, &v, DL->getTypeStoreSize(t));
}
static CFunc* getCF(Function* f) { auto it = cfuncs.find(f); if (it != cfuncs.end()) return it->second; CFunc* c = new CFunc(); c->f = f; c->id = cfById.size(); cfById.push_back(c); cfuncs[f] = c; return c; }

struct Tr {
  CFunc* C; Function* F; std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, uint32_t> bstart; std::unordered_map<const Constant*, int> cslot; unsigned next = 0; uint32_t cur = 0;
  int newSlots(unsigned n) { int r = next; next += n; return r; }
  int cval(uint64_t v) { C->consts.push_back(Val{v, nullptr}); return -(int)C->consts.size(); } // index: -1-k
  // first slot of a value; aggregate constants: consecutive consts stored descending => use get(i)
  int op(const Value* v, unsigned i = 0) {
    if (auto* c = dyn_cast<Constant>(v)) {
      auto it = cslot.find(c); int base;
      if (it == cslot.end()) { std::vector<uint64_t> fl; constFlat(c, fl); if (fl.empty()) fl.push_back(0); base = (int)C->consts.size(); for (uint64_t x : fl) C->consts.push_back(Val{x, nullptr}); cslot[c] = base; } else base = it->second;
      return -1 - (base + (int)i);
    }
    auto it = slot.find(v); if (it == slot.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return cval(0); fprintf(stderr, "ENGINE-ERROR no slot in %s\n", F->getName().str().c_str()); _exit(77); }
    return it->second + (int)i;
  }
  Ins& emit(Op o) { C->code.push_back(Ins{o, 0, 0, 0, 0, 0, 0, 0, 0, nullptr, cur}); return C->code.back(); }
  void unsup(const std::string& s) { Ins& i = emit(O_UNSUP); i.p = strdup(s.c_str()); }
  int edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.target = 0; for (const PHINode& p : to->phis()) { const Value* v = p.getIncomingValueForBlock(from); unsigned n = slotsOf(p.getType()); for (unsigned i = 0; i < n; i++) { int s = op(v, i); int d = slot[&p] + i; if (s != d) e.copies.push_back(Copy{d, s}); } }
    C->edges.push_back(e); pend.push_back(to); return (int)C->edges.size() - 1;
  }
  std::vector<const BasicBlock*> pend;
  void gep(const GEPOperator* g, int d) {
    // base + const + sum
    uint64_t cst = 0; std::vector<GepT>* v = new std::vector<GepT>();
    for (auto it = gep_type_begin(g), en = gep_type_end(g); it != en; ++it) {
      Value* ix = it.getOperand();
      if (StructType* st = it.getStructTypeOrNull()) { cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
      int64_t es = DL->getTypeAllocSize(it.getIndexedType());
      if (auto* ci = dyn_cast<ConstantInt>(ix)) { cst += ci->getSExtValue() * es; continue; }
      v->push_back(GepT{op(ix), es, (uint8_t)bw(ix->getType())});
    }
    Ins& i = emit(O_GEP); i.d = d; i.a = op(g->getPointerOperand()); i.imm = cst; i.p = v->empty() ? nullptr : v; if (v->empty()) delete v;
  }
  void run() {
    for (Argument& a : F->args()) slot[&a] = newSlots(slotsOf(a.getType())); C->npar = next; C->nret = slotsOf(F->getReturnType());
    for (BasicBlock& b : *F) for (Instruction& I : b) if (!I.getType()->isVoidTy()) slot[&I] = newSlots(slotsOf(I.getType()));
    for (BasicBlock& b : *F) { bstart[&b] = C->code.size(); for (Instruction& I : b) { if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue; cur = srcs.size(); srcs.push_back(&I); inst(I); } }
    for (size_t i = 0; i < pend.size(); i++) C->edges[i].target = bstart[pend[i]];
    C->nregs = next; C->ready = true;
  }
  void inst(Instruction& I) {
    Type* t = I.getType(); int d = t->isVoidTy() ? -1 : slot[&I];
    unsigned n = slotsOf(t);
    if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
      unsigned w = bw(t); if (!w || w > 64) { unsup("wide integer arithmetic"); return; }
      Kind k; bool f = false;
      switch (bo->getOpcode()) { case Instruction::Add: k = KAdd; break; case Instruction::Sub: k = KSub; break; case Instruction::Mul: k = KMul; break; case Instruction::UDiv: k = KUDiv; break; case Instruction::SDiv: k = KSDiv; break; case Instruction::URem: k = KURem; break; case Instruction::SRem: k = KSRem; break; case Instruction::And: k = KAnd; break; case Instruction::Or: k = KOr; break; case Instruction::Xor: k = KXor; break; case Instruction::Shl: k = KShl; break; case Instruction::LShr: k = KLShr; break; case Instruction::AShr: k = KAShr; break; case Instruction::FAdd: k = KFAdd; f = true; break; case Instruction::FSub: k = KFSub; f = true; break; case Instruction::FMul: k = KFMul; f = true; break; case Instruction::FDiv: k = KFDiv; f = true; break; default: unsup("binop"); return; }
      if (f && !(t->getScalarType()->isFloatTy() || t->getScalarType()->isDoubleTy())) { unsup("long double arithmetic"); return; }
      for (unsigned i = 0; i < n; i++) { Ins& x = emit(f ? O_FBIN : k == KAdd ? O_ADD : k == KSub ? O_SUB : O_BIN); x.sub = k; x.w = w; x.d = d + i; x.a = op(bo->getOperand(0), i); x.b = op(bo->getOperand(1), i); }
      return;
    }
    switch (I.getOpcode()) {
    case Instruction::FNeg: for (unsigned i = 0; i < n; i++) { Ins& x = emit(O_FNEG); x.w = bw(t); x.d = d + i; x.a = op(I.getOperand(0), i); } return;
    case Instruction::ICmp: { auto* c = cast<ICmpInst>(&I); unsigned w = bw(c->getOperand(0)->getType()); if (!w || w > 64) { unsup("wide icmp"); return; } for (unsigned i = 0; i < n; i++) { Ins& x = emit(O_ICMP); x.sub = (uint8_t)c->getPredicate(); x.w = w; x.d = d + i; x.a = op(c->getOperand(0), i); x.b = op(c->getOperand(1), i); } return; }
    case Instruction::FCmp: { auto* c = cast<FCmpInst>(&I); Type* ot = c->getOperand(0)->getType()->getScalarType(); if (!ot->isFloatTy() && !ot->isDoubleTy()) { unsup("long double compare"); return; } for (unsigned i = 0; i < n; i++) { Ins& x = emit(O_FCMP); x.sub = (uint8_t)c->getPredicate(); x.w = bw(ot); x.d = d + i; x.a = op(c->getOperand(0), i); x.b = op(c->getOperand(1), i); } return; }
    case Instruction::Load: { std::vector<Leaf> lv; if (!leaves(t, 0, lv)) { unsup("load type"); return; } int a = op(I.getOperand(0)); for (unsigned i = 0; i < lv.size(); i++) { Ins& x = emit(O_LOAD); x.d = d + i; x.a = a; x.imm = lv[i].off; x.w = lv[i].w; x.w2 = lv[i].bytes; }
      // a pointer register overwritten by its own load cannot happen (SSA)
      return; }
    case Instruction::Store: { Value* v = I.getOperand(0); std::vector<Leaf> lv; if (!leaves(v->getType(), 0, lv)) { unsup("store type"); return; } for (unsigned i = 0; i < lv.size(); i++) { Ins& x = emit(O_STORE); x.a = op(I.getOperand(1)); x.b = op(v, i); x.imm = lv[i].off; x.w = lv[i].w; x.w2 = lv[i].bytes; } return; }
    case Instruction::GetElementPtr: if (t->isVectorTy()) { unsup("vector gep"); return; } gep(cast<GEPOperator>(&I), d); return;
    case Instruction::Alloca: { auto* a = cast<AllocaInst>(&I); Ins& x = emit(O_ALLOCA); x.d = d; x.imm = DL->getTypeAllocSize(a->getAllocatedType()); x.a = op(a->getArraySize()); x.c = (int)a->getAlign().value(); return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
      unsigned w1 = bw(I.getOperand(0)->getType()), w2 = bw(t); if (!w1 || w1 > 64 || !w2 || w2 > 64) { unsup("cast width"); return; }
      CastK k; switch (I.getOpcode()) { case Instruction::Trunc: k = C_TRUNC; break; case Instruction::ZExt: k = C_ZEXT; break; case Instruction::SExt: k = C_SEXT; break; case Instruction::FPToSI: k = C_FPTOSI; break; case Instruction::FPToUI: k = C_FPTOUI; break; case Instruction::SIToFP: k = C_SITOFP; break; case Instruction::UIToFP: k = C_UITOFP; break; case Instruction::FPExt: k = C_FPEXT; break; default: k = C_FPTRUNC; }
      for (unsigned i = 0; i < n; i++) { Ins& x = emit(O_CAST); x.sub = k; x.w = w1; x.w2 = w2; x.d = d + i; x.a = op(I.getOperand(0), i); } return; }
    case Instruction::PtrToInt: { unsigned w2 = bw(t); Ins& x = emit(O_CAST); x.sub = w2 < 64 ? C_TRUNC : C_ZEXT; x.w = 64; x.w2 = w2; x.d = d; x.a = op(I.getOperand(0)); return; }
    case Instruction::IntToPtr: { unsigned w1 = bw(I.getOperand(0)->getType()); Ins& x = emit(O_CAST); x.sub = C_ZEXT; x.w = w1; x.w2 = 64; x.d = d; x.a = op(I.getOperand(0)); return; }
    case Instruction::BitCast: {
      unsigned n1 = slotsOf(I.getOperand(0)->getType()); if (n1 == n) { for (unsigned i = 0; i < n; i++) { Ins& x = emit(O_MOV); x.d = d + i; x.a = op(I.getOperand(0), i); } return; }
      unsigned w1 = bw(I.getOperand(0)->getType()), w2 = bw(t);
      if (n1 == 1 && n == 2 && w1 == 64) { for (unsigned i = 0; i < 2; i++) { Ins& x = emit(O_MOV); x.sub = 1; x.w = 64; x.w2 = 32; x.imm = 32 * i; x.d = d + i; x.a = op(I.getOperand(0)); } return; }
      if (n1 == 2 && n == 1 && w2 == 64 && w1 == 32) { Ins& x = emit(O_MOV); x.sub = 2; x.w = 32; x.d = d; x.a = op(I.getOperand(0), 0); x.b = op(I.getOperand(0), 1); return; }
      unsup("bitcast"); return; }
    case Instruction::Freeze: for (unsigned i = 0; i < n; i++) { Ins& x = emit(O_MOV); x.d = d + i; x.a = op(I.getOperand(0), i); } return;
    case Instruction::Select: { auto* s = cast<SelectInst>(&I); bool vc = s->getCondition()->getType()->isVectorTy(); for (unsigned i = 0; i < n; i++) { Ins& x = emit(O_SELECT); x.d = d + i; x.a = op(s->getCondition(), vc ? i : 0); x.b = op(s->getTrueValue(), i); x.c = op(s->getFalseValue(), i); std::vector<Leaf> lv; leaves(t, 0, lv); x.w = i < lv.size() ? lv[i].w : bw(t); } return; }
    case Instruction::ExtractValue: { auto* e = cast<ExtractValueInst>(&I); unsigned off = aggOff(e->getAggregateOperand()->getType(), e->getIndices()); for (unsigned i = 0; i < n; i++) { Ins& x = emit(O_MOV); x.d = d + i; x.a = op(e->getAggregateOperand(), off + i); } return; }
    case Instruction::InsertValue: { auto* e = cast<InsertValueInst>(&I); unsigned off = aggOff(t, e->getIndices()); unsigned m = slotsOf(e->getInsertedValueOperand()->getType()); for (unsigned i = 0; i < n; i++) { int s = (i >= off && i < off + m) ? op(e->getInsertedValueOperand(), i - off) : op(e->getAggregateOperand(), i); Ins& x = emit(O_MOV); x.d = d + i; x.a = s; } return; }
    case Instruction::ExtractElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) { unsup("extractelement"); return; } Ins& x = emit(O_MOV); x.d = d; x.a = op(I.getOperand(0), ci->getZExtValue()); return; }
    case Instruction::InsertElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) { unsup("insertelement"); return; } for (unsigned i = 0; i < n; i++) { int s = i == ci->getZExtValue() ? op(I.getOperand(1)) : op(I.getOperand(0), i); Ins& x = emit(O_MOV); x.d = d + i; x.a = s; } return; }
    case Instruction::ShuffleVector: { auto* s = cast<ShuffleVectorInst>(&I); unsigned m = slotsOf(s->getOperand(0)->getType()); for (unsigned i = 0; i < n; i++) { int k = s->getMaskValue(i); Ins x0{O_MOV}; int src = k < 0 ? cval(0) : (unsigned)k < m ? op(s->getOperand(0), k) : op(s->getOperand(1), k - m); Ins& x = emit(O_MOV); x.d = d + i; x.a = src; } return; }
    case Instruction::Br: { auto* b = cast<BranchInst>(&I); if (b->isUnconditional()) { int e = edge(I.getParent(), b->getSuccessor(0)); Ins& x = emit(O_BR); x.a = e; } else { int c = op(b->getCondition()); int e0 = edge(I.getParent(), b->getSuccessor(0)), e1 = edge(I.getParent(), b->getSuccessor(1)); Ins& x = emit(O_CBR); x.a = c; x.b = e0; x.c = e1; } return; }
    case Instruction::Switch: { auto* s = cast<SwitchInst>(&I); auto* v = new std::vector<std::pair<uint64_t, int>>(); int c = op(s->getCondition()); int de = edge(I.getParent(), s->getDefaultDest()); std::map<const BasicBlock*, int> em; for (auto& cs : s->cases()) { const BasicBlock* to = cs.getCaseSuccessor(); if (!em.count(to)) em[to] = edge(I.getParent(), to); v->push_back({cs.getCaseValue()->getZExtValue(), em[to]}); } Ins& x = emit(O_SWITCH); x.a = c; x.b = de; x.w = bw(s->getCondition()->getType()); x.p = v; return; }
    case Instruction::Ret: { int a = 0; unsigned m = 0; std::vector<int>* v = new std::vector<int>(); if (I.getNumOperands()) { m = slotsOf(I.getOperand(0)->getType()); for (unsigned i = 0; i < m; i++) v->push_back(op(I.getOperand(0), i)); } (void)a; Ins& x = emit(O_RET); x.p = v; x.b = m; return; }
    case Instruction::Unreachable: emit(O_UNREACH); return;
    case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I), d); return;
    case Instruction::LandingPad: { auto* lp = cast<LandingPadInst>(&I); LPad* P = new LPad(); P->cleanup = lp->isCleanup(); for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) { P->cl.push_back({constScalar(lp->getClause(i)), false}); } else P->cl.push_back({0, true}); } Ins& x = emit(O_LPAD); x.d = d; x.p = P; return; }
    case Instruction::Resume: { Ins& x = emit(O_RESUME); x.a = op(I.getOperand(0), 0); return; }
    case Instruction::AtomicRMW: { auto* r = cast<AtomicRMWInst>(&I); unsigned w = bw(t); Ins& x = emit(O_ATOMICRMW); x.d = d; x.a = op(r->getPointerOperand()); x.b = op(r->getValOperand()); x.w = w; x.w2 = DL->getTypeStoreSize(t); x.sub = r->getOperation(); return; }
    case Instruction::AtomicCmpXchg: { auto* r = cast<AtomicCmpXchgInst>(&I); Type* vt = r->getCompareOperand()->getType(); Ins& x = emit(O_CMPXCHG); x.d = d; x.a = op(r->getPointerOperand()); x.b = op(r->getCompareOperand()); x.c = op(r->getNewValOperand()); x.w = bw(vt); x.w2 = DL->getTypeStoreSize(vt); return; }
    case Instruction::Fence: return;
    case Instruction::VAArg: unsup("va_arg"); return;
    default: unsup(std::string("instruction ") + I.getOpcodeName()); return;
    }
  }
  static unsigned aggOff(Type* t, ArrayRef<unsigned> ix) { unsigned off = 0; for (unsigned i : ix) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += slotsOf(st->getElementType(k)); t = st->getElementType(i); } else { auto* at = cast<ArrayType>(t); off += i * slotsOf(at->getElementType()); t = at->getElementType(); } } return off; }
  void call(CallBase& cb, int d) {
    if (cb.isInlineAsm()) { auto* ia = cast<InlineAsm>(cb.getCalledOperand()); if (ia->getAsmString().empty()) return; unsup("inline asm " + ia->getAsmString()); return; }
    Function* f = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCastsAndAliases());
    if (f && f->isIntrinsic()) { switch (f->getIntrinsicID()) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::stackrestore: return; default: break; } }
    CallSite* cs = new CallSite(); cs->callee = f; cs->cb = &cb; cs->fty = cb.getFunctionType(); cs->native = nullptr; cs->cf = nullptr; cs->intr = f && f->isIntrinsic() ? (int)f->getIntrinsicID() : 0;
    cs->fslot = f ? 0 : op(cb.getCalledOperand()); cs->nfixed = 0;
    for (unsigned i = 0; i < cb.arg_size(); i++) { Value* a = cb.getArgOperand(i); unsigned m = slotsOf(a->getType()); std::vector<Leaf> lv; leaves(a->getType(), 0, lv); for (unsigned k = 0; k < m; k++) { cs->args.push_back(op(a, k)); cs->argw.push_back(k < lv.size() ? lv[k].w : 64); cs->byvalSize.push_back(cb.isByValArgument(i) ? DL->getTypeAllocSize(cb.getParamByValType(i)) : 0); } if (i < cs->fty->getNumParams()) cs->nfixed = cs->args.size(); }
    cs->ret = d; cs->nret = slotsOf(cb.getType()); cs->normal = cs->unwind = -1;
    if (auto* inv = dyn_cast<InvokeInst>(&cb)) { cs->normal = edge(cb.getParent(), inv->getNormalDest()); cs->unwind = edge(cb.getParent(), inv->getUnwindDest()); }
    Ins& x = emit(O_CALL); x.p = cs;
  }
};
static void translate(CFunc* c) { Tr t; t.C = c; t.F = c->f; t.run(); }

// ------------------------------------------------------------------ natives
typedef void (*NatFn)(CallSite* cs, Val* a, Val* r);
static std::unordered_map<std::string, NatFn> natives;
static void runLoop(size_t base);
static Val callGuest(Function* f, const std::vector<Val>& args);
static void pushFrame(CFunc* c, CallSite* cs, const Val* args, unsigned n);
static void doThrow(); // unwinds using curExc
static bool thrown = false; // set when unwinding changed control flow inside a native

static Val symInput(const std::string& name, unsigned w, bool ranged, int64_t lo, int64_t hi) {
  if (concreteMode) { auto& v = concreteIn[name]; uint64_t r = ranged ? (uint64_t)lo : 0; if (!v.empty()) { r = v.front(); v.erase(v.begin()); } return Val{r & maskw(w), nullptr}; }
  if (ranged && lo == hi) return Val{(uint64_t)lo & maskw(w), nullptr};
  uint64_t init = ranged ? (lo <= 0 && hi >= 0 ? 0 : (uint64_t)lo) : 0;
  E e = X.sym(name, w, ranged, lo, hi, init);
  // the range is asserted to the solver without going through the simplifier (intervals would fold it away)
  if (ranged) { E c1 = X.raw(KSle, 1, 0, X.cst(lo, w), e, nullptr, 0), c2 = X.raw(KSle, 1, 0, e, X.cst(hi, w), nullptr, 0); if (lo > smin_w(w)) S->addRange(c1); if (hi < smax_w(w)) S->addRange(c2); }
  return Val{0, e};
}
static int slotId(char (*tab)[64], int& n, const std::string& s) { for (int i = 0; i < n; i++) if (s == tab[i]) return i; return -1; }
static void coverHit(const std::string& s) { sh->acq(); int i = slotId(sh->cov, sh->ncov, s); if (i < 0 && sh->ncov < 256) { i = sh->ncov++; snprintf(sh->cov[i], 64, "%s", s.c_str()); } if (i >= 0) sh->covn[i]++; sh->rel(); }
static void labelHit(const std::string& s, bool q) { sh->acq(); int i = -1; for (int k = 0; k < sh->nlab; k++) if (s == sh->lab[k]) i = k; if (i < 0 && sh->nlab < 256) { i = sh->nlab++; snprintf(sh->lab[i], 96, "%s", s.c_str()); } if (i >= 0) { sh->labn[i]++; if (q) sh->labq[i]++; } sh->rel(); }
static void checkCond(const Val& v, const std::string& label) {
  localChecks++;
  if (!v.e) { labelHit(label, false); if (!(v.v & 1)) fault(label, "assertion '" + label + "' is false on this path"); return; }
  E c = v.e; if (c->w != 1) c = X.not_(X.bin(KEq, c, X.cst(0, c->w))); if (c->k == KConst) { checkCond(Val{c->val, nullptr}, label); return; }
  labelHit(label, true); c = X.rewrite(c); if (c->k == KConst && (c->val & 1)) return; if (c->k == KConst) fault(label, "assertion '" + label + "' is false on this path");
  if (S->implied(c)) return;
  E nc = X.not_(c); std::vector<uint64_t> m; int r;
  if (X.eval(nc) & 1) { r = 1; m = X.model; } else r = S->check(nc, &m);
  if (r == 0) { S->note(c); return; } if (r < 0) { sh->unknown++; if (verbose) { fprintf(stderr, "[unknown] check %s\n", label.c_str()); if (getenv("SYM_DUMP")) fprintf(stderr, "%s\n", Z3_ast_to_string(S->c, S->bl(nc))); } S->add(c); return; }
  violation(label, "assertion '" + label + "' can be false", &m);
  { std::vector<uint64_t> m2; int q = (X.eval(c) & 1) ? 1 : S->check(c, &m2); if (q == 1) { if (!m2.empty()) setModel(m2); S->add(c); return; } finish("viol"); }
}
static double D(const Val& v) { return ExprCtx::todbl(conc(v), 64); }
static float Fl(const Val& v) { return (float)ExprCtx::todbl(conc(v), 32); }
static Val DV(double d) { return Val{ExprCtx::fromdbl(d, 64), nullptr}; }
static Val FV(float d) { return Val{ExprCtx::fromdbl(d, 32), nullptr}; }
static bool tiMatch(uint64_t t, uint64_t want) {
  if (!want || t == want) return true; if (!M->in(t, 16)) return false; uint64_t vt = *(uint64_t*)t;
  uint64_t n1 = *(uint64_t*)(t + 8), n2 = M->in(want, 16) ? *(uint64_t*)(want + 8) : 0; if (n1 && n2 && M->in(n1, 1) && M->in(n2, 1) && !strcmp((char*)n1, (char*)n2)) return true;
  if (vt == vtSI + 16) return tiMatch(*(uint64_t*)(t + 16), want);
  if (vt == vtVMI + 16) { uint32_t nb = *(uint32_t*)(t + 20); for (uint32_t i = 0; i < nb; i++) if (tiMatch(*(uint64_t*)(t + 24 + 16 * i), want)) return true; }
  return false;
}
// offset of base "want" in object type t, or -1
static bool dynOff(uint64_t t, uint64_t want, int64_t& off) {
  if (t == want) { off = 0; return true; } if (!M->in(t, 16)) return false; uint64_t vt = *(uint64_t*)t;
  if (vt == vtSI + 16) return dynOff(*(uint64_t*)(t + 16), want, off);
  if (vt == vtVMI + 16) { uint32_t nb = *(uint32_t*)(t + 20); for (uint32_t i = 0; i < nb; i++) { int64_t fl = *(int64_t*)(t + 24 + 16 * i + 8); int64_t o; if (dynOff(*(uint64_t*)(t + 24 + 16 * i), want, o)) { off = o + (fl >> 8); return true; } } }
  return false;
}
static Val retVal[4];
static uint64_t stackAlloc(uint64_t n, uint64_t al);
static Val doICmp_(const Val& c);
static Function* resolveFn(const Val& p);
static E symFBin_(Kind k, E x, E y, unsigned w);
#include "natives.h"

// ------------------------------------------------------------------ execution
static void pushFrame(CFunc* c, CallSite* cs, const Val* args, unsigned n) {
  if (!c->ready) translate(c);
  if (!c->entered) { c->entered = true; if (c->id < (1 << 17)) sh->funcs[c->id] = 1; }
  if (stack.size() >= maxDepth) fault("stack-overflow", "call depth exceeds " + std::to_string(maxDepth));
  if (regTop + c->nregs > REGMAX) fault("stack-overflow", "register stack exhausted");
  Frame f; f.f = c; f.regs = regBase + regTop; f.pc = 0; f.sp = M->sp; f.cs = cs; f.vaArea = 0; regTop += c->nregs;
  unsigned m = n < c->npar ? n : c->npar; memcpy(f.regs, args, m * sizeof(Val)); for (unsigned i = m; i < c->nregs; i++) f.regs[i] = Val{0, nullptr};
  stack.push_back(f);
}
static uint64_t stackAlloc(uint64_t n, uint64_t al) {
  if (al < 16) al = 16; uint64_t a = (M->sp + 16 + al - 1) & ~(al - 1); if (a + n + 16 > STACK_END) fault("stack-overflow", "stack exhausted");
  memset((void*)a, 0xAA, n); memset(&M->S(a), SH_OK, n); M->sp = a + n; return a; }
static void popFrame() { Frame& f = stack.back(); if (M->sp > f.sp) memset(&M->S(f.sp), SH_NONE, M->sp - f.sp); M->sp = f.sp; regTop = f.regs - regBase; stack.pop_back(); }
static inline Val& G(Frame& f, int i) { return i >= 0 ? f.regs[i] : f.f->consts[-1 - i]; }
static void takeEdge(Frame& f, int ei) {
  Edge& e = f.f->edges[ei]; f.pc = e.target; size_t n = e.copies.size(); if (!n) return;
  if (n == 1) { f.regs[e.copies[0].d] = G(f, e.copies[0].s); return; }
  Val tmpS[16]; Val* tmp = n <= 16 ? tmpS : new Val[n]; for (size_t i = 0; i < n; i++) tmp[i] = G(f, e.copies[i].s); for (size_t i = 0; i < n; i++) f.regs[e.copies[i].d] = tmp[i]; if (tmp != tmpS) delete[] tmp;
}
static size_t throwFloor = 0;
static void doThrow() { // curExc set; find a handler
  ExcObj& x = excs[curExc]; bool found = false;
  for (int i = (int)stack.size() - 1; i >= (int)throwFloor && !found; i--) {
    Frame& f = stack[i]; Ins& ci = f.f->code[f.pc - 1]; if (ci.op != O_CALL) continue; CallSite* cs = (CallSite*)ci.p; if (cs->unwind < 0) continue;
    Ins* lp = nullptr; for (uint32_t p = f.f->edges[cs->unwind].target; p < f.f->code.size(); p++) if (f.f->code[p].op == O_LPAD) { lp = &f.f->code[p]; break; }
    LPad* P = (LPad*)lp->p; for (auto& c : P->cl) if (!c.isFilter && tiMatch(x.ti, c.ti)) found = true;
  }
  if (!found) { std::string nm = "?"; if (M->in(x.ti, 16)) { uint64_t n = *(uint64_t*)(x.ti + 8); if (M->in(n, 1)) nm = demangle(std::string("_ZTS") + (char*)n); } fault("uncaught-exception", "exception of type " + nm + " reaches no handler"); }
  // second phase: go to the first frame that has a landing pad which applies
  while (stack.size() > throwFloor) {
    Frame& f = stack.back(); Ins& ci = f.f->code[f.pc - 1]; CallSite* cs = ci.op == O_CALL ? (CallSite*)ci.p : nullptr;
    if (cs && cs->unwind >= 0) {
      uint32_t p = f.f->edges[cs->unwind].target; while (f.f->code[p].op != O_LPAD) p++; LPad* P = (LPad*)f.f->code[p].p; int sel = 0; bool m = false;
      for (auto& c : P->cl) if (!c.isFilter && tiMatch(x.ti, c.ti)) { m = true; uint64_t k = c.ti; auto it = tids.find(k); if (it == tids.end()) { int id = tids.size() + 1; tids[k] = id; sel = id; } else sel = it->second; break; }
      if (m || P->cleanup) { unwindRes[0] = Val{curExc, nullptr}; unwindRes[1] = Val{(uint64_t)sel, nullptr}; takeEdge(f, cs->unwind); thrown = true; return; }
    }
    popFrame();
  }
  unsupported("exception through native frame");
}
static Val callGuest(Function* fn, const std::vector<Val>& args) {
  static CallSite none; size_t base = stack.size(); size_t fl = throwFloor; throwFloor = base; pushFrame(getCF(fn), nullptr, args.data(), args.size()); retVal[0] = Val{0, nullptr}; runLoop(base); throwFloor = fl; (void)none; return retVal[0];
}
static Function* resolveFn(const Val& p) { uint64_t a = conc(p); auto it = faddr.find(a); if (it == faddr.end()) fault("memory-safety", "call through invalid function pointer " + hex(a)); return it->second; }

static Val doBin(Kind k, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e) {
    if ((k == KUDiv || k == KSDiv || k == KURem || k == KSRem) && (b.v & maskw(w)) == 0) fault("division-by-zero", "integer division by zero");
    return Val{ExprCtx::cbin(k, a.v, b.v, w), nullptr}; }
  if (k == KUDiv || k == KSDiv || k == KURem || k == KSRem) { E be = toE(b, w); if (decide(X.bin(KEq, be, X.cst(0, w)))) fault("division-by-zero", "integer division by zero"); }
  return fromE(X.bin(k, toE(a, w), toE(b, w)));
}
static Val doICmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
  Kind k; bool sw = false, ng = false;
  switch (pred) { case CmpInst::ICMP_EQ: k = KEq; break; case CmpInst::ICMP_NE: k = KEq; ng = true; break; case CmpInst::ICMP_ULT: k = KUlt; break; case CmpInst::ICMP_ULE: k = KUle; break; case CmpInst::ICMP_UGT: k = KUlt; sw = true; break; case CmpInst::ICMP_UGE: k = KUle; sw = true; break; case CmpInst::ICMP_SLT: k = KSlt; break; case CmpInst::ICMP_SLE: k = KSle; break; case CmpInst::ICMP_SGT: k = KSlt; sw = true; break; default: k = KSle; sw = true; break; }
  const Val &x = sw ? b : a, &y = sw ? a : b;
  if (!x.e && !y.e) { bool r = ExprCtx::cbin(k, x.v, y.v, w); return Val{(uint64_t)(r != ng), nullptr}; }
  E r = X.bin(k, toE(x, w), toE(y, w)); return fromE(ng ? X.not_(r) : r);
}
static Val doFCmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e) { double x = ExprCtx::todbl(a.v, w), y = ExprCtx::todbl(b.v, w); bool un = x != x || y != y, r = false;
    switch (pred) { case CmpInst::FCMP_FALSE: r = 0; break; case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = x != y; break; default: r = 1; }
    return Val{(uint64_t)r, nullptr}; }
  E x = toE(a, w), y = toE(b, w); E r;
  auto un = [&] { return X.fcmp(FP_UNO, x, y); };
  switch (pred) {
  case CmpInst::FCMP_FALSE: r = X.cst(0, 1); break; case CmpInst::FCMP_TRUE: r = X.cst(1, 1); break;
  case CmpInst::FCMP_OEQ: r = X.fcmp(FP_OEQ, x, y); break; case CmpInst::FCMP_OGT: r = X.fcmp(FP_OLT, y, x); break; case CmpInst::FCMP_OGE: r = X.fcmp(FP_OLE, y, x); break; case CmpInst::FCMP_OLT: r = X.fcmp(FP_OLT, x, y); break; case CmpInst::FCMP_OLE: r = X.fcmp(FP_OLE, x, y); break;
  case CmpInst::FCMP_ONE: r = X.bin(KAnd, X.not_(un()), X.not_(X.fcmp(FP_OEQ, x, y))); break; case CmpInst::FCMP_ORD: r = X.not_(un()); break; case CmpInst::FCMP_UNO: r = un(); break;
  case CmpInst::FCMP_UEQ: r = X.bin(KOr, un(), X.fcmp(FP_OEQ, x, y)); break; case CmpInst::FCMP_UGT: r = X.not_(X.fcmp(FP_OLE, x, y)); break; case CmpInst::FCMP_UGE: r = X.not_(X.fcmp(FP_OLT, x, y)); break; case CmpInst::FCMP_ULT: r = X.not_(X.fcmp(FP_OLE, y, x)); break; case CmpInst::FCMP_ULE: r = X.not_(X.fcmp(FP_OLT, y, x)); break; default: r = X.not_(X.fcmp(FP_OEQ, x, y)); break;
  }
  return fromE(r);
}
static unsigned fdivLimit = 40;

static E symFBin(Kind k, E x, E y, unsigned w) {
  E r = X.fbin(k, x, y);
  if (r->k == KFDiv || r->k == KFMul || r->k == KFAdd || r->k == KFSub) {
    // inexact: enumerate operands with few values (solver-exhaustive); otherwise keep the IEEE term
    auto small = [&](E e) { return e->k == KConst || (e->k == KLane && (uint64_t)(e->a->hi - e->a->lo) <= fdivLimit); };
    if (small(x) && small(y)) { uint64_t a = concretize(x), b = concretize(y); return X.cst(ExprCtx::cfbin(k, a, b, w), w); }
  }
  return r;
}
static Val doICmp_(const Val& c) { return doICmp(CmpInst::ICMP_SGT, c, Val{0, nullptr}, 32); }
static E symFBin_(Kind k, E x, E y, unsigned w) { return symFBin(k, x, y, w); }
static void doCall(Frame& f, CallSite* cs) {
  Val argv[64]; unsigned n = cs->args.size(); if (n > 64) unsupported("too many arguments"); for (unsigned i = 0; i < n; i++) argv[i] = G(f, cs->args[i]);
  Function* fn = cs->callee; if (!fn) { fn = resolveFn(G(f, cs->fslot)); }
  if (cs->intr) { Val r[4] = {{0, nullptr}, {0, nullptr}, {0, nullptr}, {0, nullptr}}; intrinsic(cs, argv, r); Frame& f2 = stack.back(); for (unsigned i = 0; i < cs->nret; i++) f2.regs[cs->ret + i] = r[i]; if (cs->normal >= 0) takeEdge(f2, cs->normal); return; }
  NatFn nf = (NatFn)cs->native;
  if (!nf || !cs->callee) { auto it = natives.find(fn->getName().str()); nf = it == natives.end() ? nullptr : it->second; if (nf && cs->callee) cs->native = (void*)nf; }
  if (nf) {
    size_t depth = stack.size(); Val r[4] = {{0, nullptr}, {0, nullptr}, {0, nullptr}, {0, nullptr}}; thrown = false; nf(cs, argv, r); if (thrown) { thrown = false; return; }
    (void)depth; Frame& f2 = stack.back(); for (unsigned i = 0; i < cs->nret; i++) f2.regs[cs->ret + i] = r[i]; if (cs->normal >= 0) takeEdge(f2, cs->normal); return;
  }
  if (fn->isDeclaration()) unsupported("external function " + fn->getName().str());
  for (unsigned i = 0; i < n; i++) if (cs->byvalSize[i]) { uint64_t c = stackAlloc(cs->byvalSize[i], 16); memCopy(c, conc(argv[i]), cs->byvalSize[i]); argv[i] = Val{c, nullptr}; }
  uint64_t va = 0; if (fn->isVarArg()) { unsigned nv = n - cs->nfixed; va = stackAlloc(nv * 8 + 8, 16); for (unsigned i = 0; i < nv; i++) { Val v = argv[cs->nfixed + i]; if (v.e && v.e->w < 64) v.e = X.zext(v.e, 64); storeC(va + 8 * i, 8, v, 64); } }
  CFunc* c = cs->callee ? (cs->cf ? cs->cf : (cs->cf = getCF(fn))) : getCF(fn);
  pushFrame(c, cs, argv, fn->isVarArg() ? cs->nfixed : n); if (fn->isVarArg()) stack.back().vaArea = va;
}
static void runLoop(size_t base) {
  while (stack.size() > base) {
    Frame* fp = &stack.back(); CFunc* C = fp->f; Val* R = fp->regs; const Val* K = C->consts.data();
#define V(i) ((i) >= 0 ? R[i] : K[-1 - (i)])
    for (;;) {
      Ins& I = C->code[fp->pc++];
      if (__builtin_expect((++icount & 0xfffff) == 0, 0)) { if (sh->stop.load()) finish("limit"); static uint64_t tot = 0; tot += 0x100000; if (tot > maxInstrs) fault("step-limit", "more than " + std::to_string(maxInstrs) + " instructions on one path (non-termination?)"); }
      switch (I.op) {
      case O_ADD: { const Val &a = V(I.a), &b = V(I.b); if (!a.e && !b.e) R[I.d] = Val{(a.v + b.v) & maskw(I.w), nullptr}; else R[I.d] = fromE(X.bin(KAdd, toE(a, I.w), toE(b, I.w))); break; }
      case O_SUB: { const Val &a = V(I.a), &b = V(I.b); if (!a.e && !b.e) R[I.d] = Val{(a.v - b.v) & maskw(I.w), nullptr}; else R[I.d] = fromE(X.bin(KSub, toE(a, I.w), toE(b, I.w))); break; }
      case O_BIN: curSrc = I.src; R[I.d] = doBin((Kind)I.sub, V(I.a), V(I.b), I.w); break;
      case O_ICMP: R[I.d] = doICmp(I.sub, V(I.a), V(I.b), I.w); break;
      case O_FBIN: { const Val a = V(I.a), b = V(I.b); if (!a.e && !b.e) R[I.d] = Val{ExprCtx::cfbin((Kind)I.sub, a.v, b.v, I.w), nullptr}; else { curSrc = I.src; R[I.d] = fromE(symFBin((Kind)I.sub, toE(a, I.w), toE(b, I.w), I.w)); } break; }
      case O_FCMP: R[I.d] = doFCmp(I.sub, V(I.a), V(I.b), I.w); break;
      case O_FNEG: { const Val& a = V(I.a); R[I.d] = fromE(X.fneg(toE(a, I.w))); break; }
      case O_LOAD: { Val p = V(I.a); curSrc = I.src; if (!p.e) R[I.d] = loadC(p.v + I.imm, I.w2, I.w); else R[I.d] = loadS(X.bin(KAdd, p.e, X.cst(I.imm, 64)), I.w2, I.w); break; }
      case O_STORE: { Val p = V(I.a); curSrc = I.src; if (!p.e) storeC(p.v + I.imm, I.w2, V(I.b), I.w); else { uint64_t a = concretize(p.e); storeC(a + I.imm, I.w2, V(I.b), I.w); } break; }
      case O_GEP: { Val b = V(I.a); if (!I.p) { if (!b.e) R[I.d] = Val{b.v + I.imm, nullptr}; else R[I.d] = fromE(X.bin(KAdd, b.e, X.cst(I.imm, 64))); break; }
        auto* v = (std::vector<GepT>*)I.p; bool sy = b.e; for (auto& g : *v) if (V(g.slot).e) sy = true;
        if (!sy) { uint64_t a = b.v + I.imm; for (auto& g : *v) a += (uint64_t)(sx(V(g.slot).v, g.w) * g.scale); R[I.d] = Val{a, nullptr}; }
        else { E e = X.cst(I.imm, 64); for (auto& g : *v) e = X.bin(KAdd, e, X.bin(KMul, X.sext(toE(V(g.slot), g.w), 64), X.cst(g.scale, 64))); R[I.d] = fromE(X.bin(KAdd, toE(b, 64), e)); } break; }
      case O_ALLOCA: { uint64_t n = conc(V(I.a)); R[I.d] = Val{stackAlloc(n * I.imm, I.c), nullptr}; break; }
      case O_CAST: { const Val a = V(I.a); 
        if (!a.e) { uint64_t r = 0; switch (I.sub) { case C_TRUNC: r = a.v & maskw(I.w2); break; case C_ZEXT: r = a.v & maskw(I.w); break; case C_SEXT: r = (uint64_t)sx(a.v, I.w) & maskw(I.w2); break; case C_FPTOSI: r = ExprCtx::cfptoi(ExprCtx::todbl(a.v, I.w), true, I.w2); break; case C_FPTOUI: r = ExprCtx::cfptoi(ExprCtx::todbl(a.v, I.w), false, I.w2); break; case C_SITOFP: r = I.w2 == 32 ? ExprCtx::fromdbl((float)sx(a.v, I.w), 32) : ExprCtx::fromdbl((double)sx(a.v, I.w), 64); break; case C_UITOFP: r = I.w2 == 32 ? ExprCtx::fromdbl((float)a.v, 32) : ExprCtx::fromdbl((double)a.v, 64); break; case C_FPEXT: r = ExprCtx::fromdbl(ExprCtx::todbl(a.v, 32), 64); break; case C_FPTRUNC: r = ExprCtx::fromdbl(ExprCtx::todbl(a.v, 64), 32); break; } R[I.d] = Val{r, nullptr}; }
        else { E e = a.e, r; switch (I.sub) { case C_TRUNC: r = X.extract(e, 0, I.w2); break; case C_ZEXT: r = X.zext(e, I.w2); break; case C_SEXT: r = X.sext(e, I.w2); break; case C_FPTOSI: r = X.fptoi(e, true, I.w2); break; case C_FPTOUI: r = X.fptoi(e, false, I.w2); break; case C_SITOFP: r = X.itofp(e, true, I.w2); break; case C_UITOFP: r = X.itofp(e, false, I.w2); break; case C_FPEXT: r = X.fpext(e); break; default: r = X.fptrunc(e); break; } R[I.d] = fromE(r); }
        break; }
      case O_MOV: { const Val a = V(I.a); if (!I.sub) R[I.d] = a; else if (I.sub == 1) R[I.d] = a.e ? fromE(X.extract(a.e, I.imm, 32)) : Val{(a.v >> I.imm) & 0xffffffffu, nullptr}; else { const Val b = V(I.b); if (!a.e && !b.e) R[I.d] = Val{(b.v << 32) | (a.v & 0xffffffffu), nullptr}; else R[I.d] = fromE(X.concat(toE(b, 32), toE(a, 32))); } break; }
      case O_SELECT: { const Val c = V(I.a); if (!c.e) R[I.d] = (c.v & 1) ? V(I.b) : V(I.c); else { const Val a = V(I.b), b = V(I.c); R[I.d] = fromE(X.ite(c.e, toE(a, I.w), toE(b, I.w))); } break; }
      case O_BR: takeEdge(*fp, I.a); break;
      case O_CBR: { const Val c = V(I.a); bool t; if (!c.e) t = c.v & 1; else { curSrc = I.src; t = decide(c.e); } takeEdge(*fp, t ? I.b : I.c); break; }
      case O_SWITCH: { const Val c = V(I.a); auto* v = (std::vector<std::pair<uint64_t, int>>*)I.p; int e = I.b; curSrc = I.src;
        if (!c.e) { for (auto& q : *v) if (q.first == c.v) { e = q.second; break; } }
        else { std::vector<std::pair<int, E>> gr; for (auto& q : *v) { E eq = X.bin(KEq, c.e, X.cst(q.first, I.w)); bool h = false; for (auto& g : gr) if (g.first == q.second) { g.second = X.bin(KOr, g.second, eq); h = true; } if (!h) gr.push_back({q.second, eq}); } for (auto& g : gr) if (decide(g.second)) { e = g.first; break; } }
        takeEdge(*fp, e); break; }
      case O_RET: { auto* v = (std::vector<int>*)I.p; unsigned n = v->size(); Val tmp[32]; if (n > 32) unsupported("large return"); for (unsigned i = 0; i < n; i++) tmp[i] = V((*v)[i]); CallSite* cs = fp->cs; popFrame(); if (!cs) { for (unsigned i = 0; i < n && i < 4; i++) retVal[i] = tmp[i]; goto out; } Frame& g = stack.back(); for (unsigned i = 0; i < n && i < cs->nret; i++) g.regs[cs->ret + i] = tmp[i]; if (cs->normal >= 0) takeEdge(g, cs->normal); goto out; }
      case O_CALL: { curSrc = I.src; doCall(*fp, (CallSite*)I.p); goto out; }
      case O_LPAD: R[I.d] = unwindRes[0]; R[I.d + 1] = unwindRes[1]; break;
      case O_RESUME: curExc = conc(V(I.a)); popFrame(); { size_t d0 = stack.size(); (void)d0; doThrow(); thrown = false; } goto out;
      case O_UNREACH: fault("unreachable", "undefined behaviour: unreachable code executed"); 
      case O_ATOMICRMW: { Val p = V(I.a); p = Val{conc(p), nullptr}; Val o = loadC(p.v, I.w2, I.w), b = V(I.b), r; switch (I.sub) { case AtomicRMWInst::Xchg: r = b; break; case AtomicRMWInst::Add: r = doBin(KAdd, o, b, I.w); break; case AtomicRMWInst::Sub: r = doBin(KSub, o, b, I.w); break; case AtomicRMWInst::And: r = doBin(KAnd, o, b, I.w); break; case AtomicRMWInst::Or: r = doBin(KOr, o, b, I.w); break; default: unsupported("atomicrmw"); } storeC(p.v, I.w2, r, I.w); R[I.d] = o; break; }
      case O_CMPXCHG: { uint64_t p = conc(V(I.a)); Val o = loadC(p, I.w2, I.w); Val eq = doICmp(CmpInst::ICMP_EQ, o, V(I.b), I.w); bool t = eq.e ? decide(eq.e) : eq.v & 1; if (t) storeC(p, I.w2, V(I.c), I.w); R[I.d] = o; R[I.d + 1] = Val{(uint64_t)t, nullptr}; break; }
      case O_UNSUP: unsupported((char*)I.p);
      default: unsupported("opcode");
      }
    }
  out:;
  }
#undef V
}
// ------------------------------------------------------------------ main
static void layoutGlobals() {
  uint64_t fa = FUNC_BASE; for (Function& f : *mod) { gaddr[&f] = fa; faddr[fa] = &f; fa += 16; }
  if (fa > GLOB_BASE) { fprintf(stderr, "ENGINE-ERROR too many functions\n"); _exit(77); }
  for (GlobalVariable& g : mod->globals()) { uint64_t sz = 64; if (g.getValueType()->isSized()) sz = DL->getTypeAllocSize(g.getValueType()); if (g.isDeclaration() && sz < 64) sz = 64; if (!sz) sz = 1; uint64_t a = M->galloc(sz, g.getAlign() ? g.getAlign()->value() : 16); gaddr[&g] = a; }
  for (GlobalVariable& g : mod->globals()) if (g.hasInitializer()) initConst(gaddr[&g], g.getInitializer());
  auto ga = [&](const char* n) -> uint64_t { GlobalVariable* g = mod->getNamedGlobal(n); return g ? gaddr[g] : 1; };
  vtClass = ga("_ZTVN10__cxxabiv117__class_type_infoE"); vtSI = ga("_ZTVN10__cxxabiv120__si_class_type_infoE"); vtVMI = ga("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
}
static unsigned g_qto = 30000; static bool g_recheck = false;
static void execPath(const std::string& entry) {
  S = new Solver(X); S->timeoutMs = g_qto; S->recheck = g_recheck; stack.reserve(maxDepth + 8);
  regBase = (Val*)Mem::map(0, REGMAX * sizeof(Val));
  if (GlobalVariable* gc = mod->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<uint64_t, Function*>> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto* cs = cast<ConstantStruct>(ca->getOperand(i)); Function* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()); if (f) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : v) callGuest(p.second, {});
  }
  Function* f = mod->getFunction(entry); if (!f || f->isDeclaration()) { fprintf(stderr, "ENGINE-ERROR no entry %s\n", entry.c_str()); _exit(77); }
  callGuest(f, {}); finish("ok");
}
int main(int argc, char** argv) {
  std::string entry = "harness_main"; std::vector<std::string> files; int workers = 8; double limit = 600; unsigned qto = 30000; std::string inFile;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") outDir = nx(); else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--time") limit = atof(nx().c_str()); else if (a == "--qtimeout") qto = atoi(nx().c_str()); else if (a == "-v") verbose = true; else if (a == "--recheck") g_recheck = true; else if (a == "--maxinstr") maxInstrs = strtoull(nx().c_str(), 0, 10); else if (a == "--maxviol") maxViol = atoi(nx().c_str()); else if (a == "--samples") nSamples = atoi(nx().c_str()); else if (a == "--concrete") { inFile = nx(); concreteMode = true; } else files.push_back(a); }
  mkdir(outDir.c_str(), 0755);
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->tokens = workers - 1;
  if (concreteMode && inFile != "-") { FILE* f = fopen(inFile.c_str(), "r"); char nm[256]; unsigned w; unsigned long long v; char line[512]; while (f && fgets(line, sizeof line, f)) { if (!strncmp(line, "---", 3)) break; if (sscanf(line, "in %255s %u %llu", nm, &w, &v) == 3) concreteIn[nm].push_back(v); } if (f) fclose(f); }
  ctx = new LLVMContext(); SMDiagnostic err; std::unique_ptr<Module> m;
  for (auto& f : files) { auto x = parseIRFile(f, err, *ctx); if (!x) { err.print("vm", errs()); return 77; } if (!m) m = std::move(x); else if (Linker::linkModules(*m, std::move(x))) { fprintf(stderr, "ENGINE-ERROR link %s\n", f.c_str()); return 77; } }
  mod = m.release(); DL = &mod->getDataLayout(); M = new Mem(); initNatives(); layoutGlobals();
  for (Function& f : *mod) getCF(&f);   // stable function ids
  // instruction ids are assigned on translation; translate everything reachable lazily in each process, except fork-site ids: translate all now
  for (Function& f : *mod) if (!f.isDeclaration()) translate(getCF(&f));
  double t0 = nowS(); prctl(PR_SET_CHILD_SUBREAPER, 1);
  sh->live = 1; pid_t p = fork();
  if (p == 0) { setpgid(0, 0); g_qto = qto; execPath(entry); }
  setpgid(p, p); bool timedOut = false; int st;
  for (;;) { pid_t q = waitpid(-1, &st, WNOHANG); if (q > 0) { if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) { sh->crashed++; if (WIFEXITED(st)) fprintf(stderr, "worker exit %d\n", WEXITSTATUS(st)); else fprintf(stderr, "worker signal %d\n", WTERMSIG(st)); } continue; } if (q < 0 && errno == ECHILD) break; if (nowS() - t0 > limit && !timedOut) { timedOut = true; sh->stop = 1; } if (timedOut && nowS() - t0 > limit + 20) { kill(-p, SIGKILL); usleep(200000); while (waitpid(-1, &st, 0) > 0) {} break; } usleep(2000); }
  double wall = nowS() - t0;
  // report
  FILE* f = fopen((outDir + "/report.json").c_str(), "w");
  fprintf(f, "{\"entry\":\"%s\",\"wall\":%.3f,\"paths\":%llu,\"ok\":%llu,\"assumed\":%llu,\"viol\":%llu,\"violations_found\":%u,\"unsup\":%llu,\"unknown\":%llu,\"limit\":%llu,\"crashed\":%llu,\"forks\":%llu,\"instrs\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"checks\":%llu,\"disagree\":%llu,\"timeout\":%s,\n", entry.c_str(), wall, (unsigned long long)sh->paths, (unsigned long long)sh->ok, (unsigned long long)sh->assumed, (unsigned long long)sh->viol, sh->violIdx.load(), (unsigned long long)sh->unsup, (unsigned long long)sh->unknown, (unsigned long long)sh->limit, (unsigned long long)sh->crashed, (unsigned long long)sh->forks, (unsigned long long)sh->instrs, (unsigned long long)sh->queries, (unsigned long long)sh->qsat, (unsigned long long)sh->qunsat, sh->stimeNs / 1e9, sh->maxqNs / 1e9, (unsigned long long)sh->checks, (unsigned long long)sh->disagree, timedOut ? "true" : "false");
  fprintf(f, "\"covers\":{"); for (int i = 0; i < sh->ncov; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", jesc(sh->cov[i]).c_str(), (unsigned long long)sh->covn[i]);
  fprintf(f, "},\n\"labels\":{"); for (int i = 0; i < sh->nlab; i++) fprintf(f, "%s\"%s\":[%llu,%llu]", i ? "," : "", jesc(sh->lab[i]).c_str(), (unsigned long long)sh->labn[i], (unsigned long long)sh->labq[i]);
  fprintf(f, "},\n\"unsupported\":["); for (int i = 0; i < sh->nuns; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(sh->uns[i]).c_str());
  fprintf(f, "],\n\"functions\":["); bool first = true; for (CFunc* c : cfById) if (c->id < (1 << 17) && sh->funcs[c->id]) { std::string file; if (auto* sp = c->f->getSubprogram()) file = sp->getFilename().str(); fprintf(f, "%s[\"%s\",\"%s\"]", first ? "" : ",\n", jesc(fname(c->f)).c_str(), jesc(file).c_str()); first = false; }
  fprintf(f, "],\n\"forksites\":["); std::vector<std::pair<uint32_t, uint32_t>> fs; for (uint32_t i = 0; i < (1 << 18); i++) if (sh->forkSite[i]) fs.push_back({sh->forkSite[i], i}); std::sort(fs.rbegin(), fs.rend()); for (size_t i = 0; i < fs.size() && i < 12; i++) fprintf(f, "%s[%u,\"%s\",\"%s\"]", i ? ",\n" : "", fs[i].first, jesc(fs[i].second < srcs.size() ? loc(srcs[fs[i].second]) : "?").c_str(), jesc(fs[i].second < srcs.size() ? fname(srcs[fs[i].second]->getFunction()) : "?").c_str());
  fprintf(f, "]}\n"); fclose(f);
  return 0;
}

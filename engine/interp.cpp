// sodasym: symbolic executor for LLVM bitcode (C++ with exceptions, heap, cooperative threads).
#include "interp.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <chrono>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <sys/resource.h>

using namespace llvm;
namespace sx {
static LLVMContext Ctx; static std::unique_ptr<Module> Mod; static const DataLayout *DL;
static std::map<const Function *, FnD *> fnOf; static std::unordered_map<uint64_t, FnD *> fnAt; static std::map<const GlobalVariable *, uint64_t> gvAddr;
static std::unordered_map<uint64_t, std::string> gvName;   // by object id
static ExprP UNDEF; static std::set<uint32_t> undefVars;
static std::vector<State> work; static State *CS;
static std::vector<uint64_t> params;
static uint64_t optMaxInst = 30000000, optMaxPaths = ~0ull; static double optTime = 1e18; static std::string optTrack = "/repo/";
static int optSamples = 6; static uint64_t optSeed = 1; static bool optCheckUndef = true;

enum End { CONT, PATH_DONE, PATH_VIOL, PATH_ASSUME, PATH_UNMOD, PATH_TIME };
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double tEnd = 1e300;
struct Viol { std::string kind, msg, where; std::string log; };
static std::vector<Viol> viols; static std::map<std::string, int> violKeys;
static std::map<std::string, int> unmod, inconc; static std::map<std::string, uint64_t> covers;
static uint64_t nPaths, nDone, nAssume, nForks, nAsserts, nAssertQ, nInst, nUnmod, nViolPaths, nChoices, nPruned;
static std::vector<std::string> samples; static std::vector<std::string> sampleObs;
static std::set<FnD *> calledFns;
struct EndEx { End e; };
[[noreturn]] static void endPath(End e) { throw EndEx{e}; }

static std::string whereStr(const Instruction *I) {
  if (!I) return "?"; std::string r; const DebugLoc &d = I->getDebugLoc(); DILocation *L = d.get();
  if (!L) return I->getFunction()->getName().str();
  int n = 0; for (; L && n < 6; L = L->getInlinedAt(), n++) { if (!r.empty()) r += " < "; r += L->getFilename().str() + ":" + std::to_string(L->getLine()); }
  return r;
}
static std::string stackStr(State &S) {
  std::string r; auto &st = S.T().st; int n = 0;
  for (int i = (int)st.size() - 1; i >= 0 && n < 14; i--, n++) { auto &f = st[i]; if (!r.empty()) r += " | "; r += demangle(f.fn->name).substr(0, 100); if (f.pc < (int)f.fn->code.size()) r += " @" + whereStr(f.fn->code[f.pc].I); }
  return r;
}
static std::string logStr(State &S, const Model &m) {
  std::string r; for (auto &d : S.log) { uint64_t v = d.e ? evalExpr(d.e, m) : d.c; if (!r.empty()) r += " "; r += std::to_string(v); } return r;
}
static void report(State &S, const char *kind, const std::string &msg, const Model &m) {
  std::string where = stackStr(S);
  std::string key = std::string(kind) + "|" + msg + "|" + (strcmp(kind, "assert") ? where.substr(0, 200) : "");
  if (violKeys[key]++ >= 3) return;
  viols.push_back({kind, msg, where, logStr(S, m)});
}
[[noreturn]] static void violation(const char *kind, const std::string &msg) { report(*CS, kind, msg, CS->m); nViolPaths++; endPath(PATH_VIOL); }
[[noreturn]] static void unmodelled(const std::string &w) { unmod[w]++; nUnmod++; if (getenv("SX_TRACE_UNMOD")) fprintf(stderr, "UNMODELLED %s\n  %s\n", w.c_str(), stackStr(*CS).c_str()); endPath(PATH_UNMOD); }

// ------------------------------------------------------------------ forking
static bool decide(State &S, ExprP c) {
  if (c->op == E_CONST) return c->c;
  bool v = evalExpr(c, S.m) & 1;
  ExprP mine = v ? c : mkNot(c), other = v ? mkNot(c) : c;
  { double left = tEnd - now(); if (left <= 0) endPath(PATH_TIME); if (left * 1000 < g_timeout_ms) g_timeout_ms = 1 + (unsigned)(left * 1000); }
  Model o; SatRes r = solve(S.pc, other, S.m, o);
  if (r == R_SAT) {
    if (optCheckUndef && c->vars) for (auto i : *c->vars) if (undefVars.count(i)) { report(S, "uninit", "decision depends on uninitialised memory", S.m); break; }
    nForks++; work.push_back(S); State &N = work.back(); N.pc.push_back(other); N.m = o;
    S.pc.push_back(mine);
  } else if (r == R_UNKNOWN) { inconc["solver gave no answer on a branch (other side not explored)"]++; S.pc.push_back(mine); }
  return v;
}
static uint64_t concretize(State &S, const Val &v, unsigned w) {
  if (!v.e) return v.c & maskw(w);
  uint64_t x = evalExpr(v.e, S.m); decide(S, mkBin(E_EQ, v.e, mkConst(x, v.e->w))); return x;
}
// a value that takes whole numbers only (or a sign) on each path: the paths split until it is fixed
static ExprP fixWhole(State &S, ExprP e) {
  if (e->op == E_CONST) return e; uint64_t x = evalExpr(e, S.m); ExprP c = mkConst(x, 64); decide(S, mkBin(E_FLE, e, c)); decide(S, mkBin(E_FLE, c, e)); if ((x << 1) == 0) decide(S, chainSign(e)); return c; }
static ExprP roundTo(State &S, ExprP x, unsigned w, unsigned aux) { ExprP e = mkFUn(E_FRND, x, w, aux); return w == 64 && isChain(x) ? fixWhole(S, e) : e; }
// ------------------------------------------------------------------ memory
static MObjP &slotOf(State &S, uint64_t id) { // for writing to the table
  uint64_t ci = id >> 7; if (ci >= S.mem.size()) S.mem.resize(ci + 1);
  auto &c = S.mem[ci]; if (!c) c = std::make_shared<Chunk>(); else if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
  return c->o[id & 127];
}
static MObj *obj(State &S, uint64_t id) { uint64_t ci = id >> 7; if (ci >= S.mem.size() || !S.mem[ci]) return nullptr; return S.mem[ci]->o[id & 127].get(); }
static MObj *wobj(State &S, uint64_t id) { MObjP &p = slotOf(S, id); if (p.use_count() > 1) p = std::make_shared<MObj>(*p); return p.get(); }
static uint64_t newObj(State &S, uint64_t size, uint8_t kind, const char *name, bool undef) {
  if (size >= (1u << 24)) violation("memory", "allocation of " + std::to_string(size) + " bytes");
  uint64_t id = S.nextId++; auto o = std::make_shared<MObj>(); o->size = size; o->kind = kind; o->name = name; o->b.assign(size, 0xAA);
  if (undef) o->s.assign(size, UNDEF); else std::fill(o->b.begin(), o->b.end(), 0);
  if (S.race && kind != K_FUNC) {}
  slotOf(S, id) = o; return id << 24;
}
static void freeObj(State &S, uint64_t id) { slotOf(S, id) = nullptr; if (((id >> 7) + 1) << 7 <= S.nextId) { auto &c = S.mem[id >> 7]; bool any = false; for (auto &o : c->o) if (o) { any = true; break; } if (!any) c = nullptr; } }
static Val readAt(MObj *o, uint64_t off, unsigned n, unsigned w, State &S, uint64_t id) {
  bool sym = false; if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) { uint64_t v = 0; memcpy(&v, &o->b[off], n); return Val(v & maskw(w)); }
  bool un = false; for (unsigned i = 0; i < n; i++) if (o->s[off + i] == UNDEF) un = true;
  if (un) { o = wobj(S, id);
    for (unsigned i = 0; i < n; i++) if (o->s[off + i] == UNDEF) { ExprP v = mkVar("undef" + std::to_string(g_vars.size()), 8); undefVars.insert(v->c); S.m.set(v->c, 0xAA); o->s[off + i] = v; } }
  ExprP r = nullptr;
  for (unsigned i = 0; i < n; i++) { ExprP b = o->s[off + i] ? o->s[off + i] : mkConst(o->b[off + i], 8); r = r ? mkConcat(b, r) : b; }
  return V(mkExtract(r, 0, w));
}
static void writeAt(MObj *o, uint64_t off, unsigned n, Val v, unsigned w) {
  if (!v.e) { if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; uint64_t x = v.c & maskw(w); memcpy(&o->b[off], &x, n); return; }
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  ExprP e = mkZext(v.e, n * 8);
  for (unsigned i = 0; i < n; i++) { ExprP b = mkExtract(e, i * 8, 8); if (b->op == E_CONST) { o->s[off + i] = nullptr; o->b[off + i] = b->c; } else o->s[off + i] = b; }
}
static std::string addrStr(uint64_t a) { std::ostringstream o; MObj *m = obj(*CS, a >> 24); auto g = gvName.find(a >> 24); if (a < 4096) o << "null" << (a ? "+" + std::to_string(a) : ""); else if (!m) { if ((a >> 24) < CS->nextId && (a >> 24) > 0) o << "freed object +" << (a & 0xffffff); else o << "wild address"; } else o << (m->kind == K_HEAP ? "heap" : m->kind == K_STACK ? "stack" : "global") << (g != gvName.end() ? " " + g->second : "") << " object of " << m->size << " bytes, offset " << (a & 0xffffff); return o.str(); }
static const DI *curDI(State &S) { auto &f = S.F(); return &f.fn->code[f.pc]; }
static void raceCheck(State &S, uint64_t id, uint64_t off, unsigned n, bool write) {
  if (!S.race || S.T().raceOff) return; MObj *o = obj(S, id); if (o->ro || o->kind == K_FUNC || o->norace) return;
  const DI *d = curDI(S); if (d->atomic) return;
  o = wobj(S, id); if (o->sh.empty()) o->sh.resize(o->size);
  auto &vc = S.T().vc; int me = S.cur;
  for (unsigned i = off; i < off + n; i++) { auto &s = o->sh[i];
    int wt = s.w >> 24; uint32_t wk = s.w & 0xffffff; bool bad = s.w && wt != me && wk > vc.c[wt]; const DI *oi = s.wi;
    if (!bad && write) for (int t = 0; t < NTH; t++) if (t != me && s.r[t] > vc.c[t]) { bad = true; oi = s.ri; }
    if (bad) { s = Shadow(); violation("race", std::string("unsynchronised ") + (write ? "write" : "read") + " at " + whereStr(d->I) + " against access at " + whereStr(oi ? oi->I : nullptr)); }
    if (write) { s.w = (uint32_t)me << 24 | vc.c[me]; s.wi = d; } else { s.r[me] = vc.c[me]; s.ri = d; } }
}
// forks on the conditions that select an address, so that an access never mixes unrelated fields
static ExprP resolveIte(State &S, ExprP e, int depth = 0) {
  if (depth > 12) return e;
  switch (e->op) {
  case E_ITE: { ExprP c = e->k[0]; bool v = decide(S, c); return resolveIte(S, v ? e->k[1] : e->k[2], depth); }
  case E_ADD: case E_SUB: case E_SHL: case E_MUL: case E_AND: case E_OR: { ExprP x = resolveIte(S, e->k[0], depth + 1), y = resolveIte(S, e->k[1], depth + 1); return x == e->k[0] && y == e->k[1] ? e : mkBin(e->op, x, y); }
  case E_ZEXT: { ExprP x = resolveIte(S, e->k[0], depth + 1); return x == e->k[0] ? e : mkZext(x, e->w); }
  case E_SEXT: { ExprP x = resolveIte(S, e->k[0], depth + 1); return x == e->k[0] ? e : mkSext(x, e->w); }
  default: return e; }
}
// resolves an access; on return either symbolic offset (offE) or concrete off
static void access(State &S, Val a, uint64_t n, bool write, uint64_t &id, uint64_t &off, ExprP &offE) {
  if (a.e) a = V(resolveIte(S, a.e));
  uint64_t v = a.e ? evalExpr(a.e, S.m) : a.c; id = v >> 24; off = v & 0xffffff; offE = nullptr;
  MObj *o = id ? obj(S, id) : nullptr;
  if (!o || o->kind == K_FUNC || off + n > o->size || (write && o->ro))
    violation("memory", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + addrStr(v));
  if (a.e) {
    ExprP rel = mkBin(E_SUB, a.e, mkConst(id << 24, 64));
    decide(S, mkBin(E_ULE, rel, mkConst(o->size - n, 64)));
    if (o->size - n < 600) offE = rel; else off = concretize(S, a, 64) & 0xffffff;
  }
}
// byte i of a constant table as a function of the symbolic index: 48 + x, 48 + x / 10 or 48 + x % 10 for the x of index = k*x + c (digit tables)
static ExprP digitTable(State &S, MObj *o, ExprP oe, uint64_t add) {
  if (!o->s.empty() && !o->ro) return nullptr; ExprP x; uint64_t k, c; if (!affineOf(oe, x, k, c)) return nullptr; if (x->hi > 255 || x->hi == x->lo || k * x->hi + c + add >= o->size) return nullptr;
  for (int form = 0; form < 3; form++) { bool ok = true; for (uint64_t v = x->lo; v <= x->hi && ok; v++) { uint64_t i = k * v + c + add; ok = (i >= o->s.size() || !o->s[i]) && o->b[i] == (uint8_t)(48 + (form == 0 ? v : form == 1 ? v / 10 : v % 10)); }
    if (ok) { ExprP t = mkConst(10, x->w), e = form == 0 ? x : form == 1 ? mkBin(E_UDIV, x, t) : mkBin(E_UREM, x, t); return mkBin(E_ADD, mkExtract(e, 0, 8), mkConst(48, 8)); } }
  return nullptr; }
static Val loadMem(State &S, const Val &a, unsigned w) {
  unsigned n = (w + 7) / 8; uint64_t id, off; ExprP oe; access(S, a, n, false, id, off, oe);
  MObj *o = obj(S, id);
  if (!oe) { if (S.race) raceCheck(S, id, off, n, false); o = obj(S, id); return readAt(o, off, n, w, S, id); }
  if (o->ro && n <= 2 && w == 8 * n) { ExprP r = nullptr; for (unsigned j = 0; j < n; j++) { ExprP e = digitTable(S, o, oe, j); if (!e) { r = nullptr; break; } r = r ? mkConcat(e, r) : e; } if (r) return V(r); }
  ExprP r = nullptr; uint64_t lo = oe->lo, hi = std::min<uint64_t>(oe->hi, o->size - n);
  for (uint64_t i = hi + 1; i-- > lo;) {
    ExprP c = mkBin(E_EQ, oe, mkConst(i, 64)); if (c->op == E_CONST && !c->c) continue;
    if (S.race) raceCheck(S, id, i, n, false);
    ExprP v = X(readAt(obj(S, id), i, n, w, S, id), w); r = r ? mkIte(c, v, r) : v; }
  return V(r);
}
static void storeMem(State &S, const Val &a, const Val &v, unsigned w) {
  unsigned n = (w + 7) / 8; uint64_t id, off; ExprP oe; access(S, a, n, true, id, off, oe);
  if (!oe) { if (S.race) raceCheck(S, id, off, n, true); writeAt(wobj(S, id), off, n, v, w); return; }
  MObj *o = wobj(S, id); if (S.race) raceCheck(S, id, off, n, true); o = wobj(S, id);
  uint64_t lo = oe->lo, hi = std::min<uint64_t>(oe->hi, o->size - n); ExprP e = mkZext(X(v, w), n * 8);
  for (uint64_t i = lo; i <= hi; i++) { ExprP c = mkBin(E_EQ, oe, mkConst(i, 64)); if (c->op == E_CONST && !c->c) continue;
    for (unsigned j = 0; j < n; j++) { ExprP old = X(readAt(obj(S, id), i + j, 1, 8, S, id), 8); writeAt(wobj(S, id), i + j, 1, V(mkIte(c, mkExtract(e, j * 8, 8), old)), 8); } }
}
static void copyMem(State &S, uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return; uint64_t di, dof, si, so; ExprP oe; access(S, Val(s), n, false, si, so, oe); access(S, Val(d), n, true, di, dof, oe);
  if (S.race) { raceCheck(S, si, so, n, false); raceCheck(S, di, dof, n, true); }
  MObj *D = wobj(S, di); MObj *Q = obj(S, si);
  memmove(&D->b[dof], &Q->b[so], n);
  if (!Q->s.empty()) { if (D->s.empty()) D->s.assign(D->size, nullptr); Q = obj(S, si); memmove(&D->s[dof], &Q->s[so], n * sizeof(ExprP)); }
  else if (!D->s.empty()) std::fill(D->s.begin() + dof, D->s.begin() + dof + n, nullptr);
}
static std::string cstr(State &S, uint64_t a) { std::string r; for (int i = 0; i < 4000; i++) { Val c = loadMem(S, Val(a + i), 8); uint8_t x = c.e ? evalExpr(c.e, S.m) : c.c; if (!x) break; r.push_back(x); } return r; }

// ------------------------------------------------------------------ decoding
static void flatten(Type *T, uint64_t off, std::vector<Leaf> &out) {
  if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) flatten(S->getElementType(i), off + L->getElementOffset(i), out); return; }
  if (auto *A = dyn_cast<ArrayType>(T)) { uint64_t s = DL->getTypeAllocSize(A->getElementType()); for (uint64_t i = 0; i < A->getNumElements(); i++) flatten(A->getElementType(), off + i * s, out); return; }
  if (auto *A = dyn_cast<FixedVectorType>(T)) { uint64_t s = DL->getTypeAllocSize(A->getElementType()); for (uint64_t i = 0; i < A->getNumElements(); i++) flatten(A->getElementType(), off + i * s, out); return; }
  if (T->isPointerTy()) out.push_back({64, off}); else if (T->isIntegerTy()) out.push_back({T->getIntegerBitWidth(), off});
  else if (T->isDoubleTy()) out.push_back({64, off}); else if (T->isFloatTy()) out.push_back({32, off}); else out.push_back({0, off});
}
static std::vector<Leaf> leavesOf(Type *T) { std::vector<Leaf> l; if (!T->isVoidTy()) flatten(T, 0, l); return l; }
static int nslots(Type *T) { return T->isVoidTy() ? 0 : (int)leavesOf(T).size(); }
static unsigned width(Type *T) { if (T->isPointerTy()) return 64; if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32; return 0; }
static bool evalConst(const Constant *C, std::vector<Val> &out) {
  Type *T = C->getType();
  if (auto *I = dyn_cast<ConstantInt>(C)) { if (I->getBitWidth() > 64) return false; out.push_back(Val(I->getZExtValue())); return true; }
  if (auto *F = dyn_cast<ConstantFP>(C)) { if (!T->isDoubleTy() && !T->isFloatTy()) return false; out.push_back(Val(F->getValueAPF().bitcastToAPInt().getZExtValue())); return true; }
  if (isa<ConstantPointerNull>(C)) { out.push_back(Val(0)); return true; }
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) { for (int i = 0, n = nslots(T); i < n; i++) out.push_back(Val(0)); return true; }
  if (auto *F = dyn_cast<Function>(C)) { out.push_back(Val(fnOf[F]->addr)); return true; }
  if (auto *G = dyn_cast<GlobalVariable>(C)) { out.push_back(Val(gvAddr[G])); return true; }
  if (auto *A = dyn_cast<GlobalAlias>(C)) return evalConst(A->getAliasee(), out);
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < D->getNumElements(); i++) if (!evalConst(D->getElementAsConstant(i), out)) return false; return true; }
  if (isa<ConstantAggregate>(C)) { for (unsigned i = 0; i < C->getNumOperands(); i++) if (!evalConst(cast<Constant>(C->getOperand(i)), out)) return false; return true; }
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    if (auto *G = dyn_cast<GEPOperator>(E)) { APInt off(64, 0); if (!G->accumulateConstantOffset(*DL, off)) return false; std::vector<Val> b; if (!evalConst(cast<Constant>(G->getPointerOperand()), b)) return false; out.push_back(Val(b[0].c + off.getSExtValue())); return true; }
    std::vector<Val> a, b; if (!evalConst(E->getOperand(0), a)) return false; if (E->getNumOperands() > 1 && !evalConst(E->getOperand(1), b)) return false;
    unsigned w = width(T); uint64_t o;
    switch (E->getOpcode()) {
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: out.push_back(Val(a[0].c & maskw(w))); return true;
    case Instruction::ZExt: out.push_back(a[0]); return true;
    case Instruction::Sub: foldBin(E_SUB, w, a[0].c, b[0].c, o); out.push_back(Val(o)); return true;
    case Instruction::Add: foldBin(E_ADD, w, a[0].c, b[0].c, o); out.push_back(Val(o)); return true;
    default: return false; } }
  return false;
}
typedef std::function<void(State &, const DI &, std::vector<Val> &)> Builtin;
static std::vector<std::pair<std::string, Builtin>> builtins; static std::unordered_map<std::string, int> biIndex;
static int intrinsicIndex(const std::string &n) { // "llvm.memcpy.p0.p0.i64" -> registered prefix
  std::string s = n; while (true) { auto it = biIndex.find(s); if (it != biIndex.end()) return it->second; auto p = s.rfind('.'); if (p == std::string::npos || p < 5) return -1; s = s.substr(0, p); }
}
static bool noYieldLoc(const Instruction *I) { // reference counts of shared_ptr: not scheduling points
  for (DILocation *L = I->getDebugLoc().get(); L; L = L->getInlinedAt()) { if (auto *SP = L->getScope()->getSubprogram()) { StringRef n = SP->getName(); if (n.contains("_M_release") || n.contains("__exchange_and_add") || n.contains("__atomic_add") || n.contains("_M_add_ref") || n.contains("_M_weak_") || n.contains("_M_use_count")) return true; } }
  StringRef n = I->getFunction()->getName(); return n.contains("_Sp_counted_base") || n.contains("__exchange_and_add") || n.contains("__atomic_add");
}
static void decode(FnD *f) {
  f->decoded = true; const Function &F = *f->F; std::unordered_map<const Value *, int> slot; std::unordered_map<const Value *, int> cslot;
  int n = 0; for (auto &A : F.args()) { int k = nslots(A.getType()); slot[&A] = n; f->args.push_back({n, k}); if (A.hasByValAttr()) f->byval.push_back({(int)A.getArgNo(), DL->getTypeAllocSize(A.getParamByValType())}); n += k; }
  for (auto &B : F) for (auto &I : B) { int k = nslots(I.getType()); if (k) { slot[&I] = n; n += k; } }
  std::unordered_map<const BasicBlock *, int> start; int pcn = 0;
  auto skip = [](const Instruction &I) { if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) return true; if (auto *II = dyn_cast<IntrinsicInst>(&I)) { auto id = II->getIntrinsicID(); return id == Intrinsic::lifetime_start || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::donothing; } return false; };
  for (auto &B : F) { start[&B] = pcn; for (auto &I : B) if (!skip(I)) pcn++; }
  bool bad = false;
  auto op = [&](const Value *v) -> int { auto it = slot.find(v); if (it != slot.end()) return it->second;
    auto ic = cslot.find(v); if (ic != cslot.end()) return ic->second;
    std::vector<Val> o; if (auto *C = dyn_cast<Constant>(v)) { if (!evalConst(C, o)) { bad = true; o.assign(std::max(1, nslots(v->getType())), Val(0)); } } else { bad = true; o.push_back(Val(0)); }
    int k = -1 - (int)f->consts.size(); // consts stored in reverse order so that slot s+i is at index k-i
    for (auto &x : o) f->consts.push_back(x); cslot[v] = k; return k; };
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) { Edge e; e.target = start[to];
    for (auto &P : to->phis()) { const Value *v = P.getIncomingValueForBlock(from); if (isa<UndefValue>(v) && false) continue; e.mv.push_back({slot[&P], op(v), nslots(P.getType())}); } return e; };
  for (auto &B : F) for (auto &I : B) { if (skip(I)) continue;
    f->code.emplace_back(); DI &d = f->code.back(); d.I = &I; d.nd = nslots(I.getType()); d.dst = d.nd ? slot[&I] : -1; bad = false; d.op = D_UNSUP; d.w = width(I.getType());
    if (auto *R = dyn_cast<ReturnInst>(&I)) { d.op = D_RET; if (R->getReturnValue()) { d.a = op(R->getReturnValue()); d.c = nslots(R->getReturnValue()->getType()); } }
    else if (auto *Br = dyn_cast<BranchInst>(&I)) { if (Br->isConditional()) { d.op = D_CBR; d.a = op(Br->getCondition()); d.e0 = edge(&B, Br->getSuccessor(0)); d.e1 = edge(&B, Br->getSuccessor(1)); } else { d.op = D_BR; d.e0 = edge(&B, Br->getSuccessor(0)); } }
    else if (auto *Sw = dyn_cast<SwitchInst>(&I)) { d.op = D_SWITCH; d.a = op(Sw->getCondition()); d.w2 = width(Sw->getCondition()->getType()); d.e0 = edge(&B, Sw->getDefaultDest()); for (auto &c : Sw->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), edge(&B, c.getCaseSuccessor())}); }
    else if (isa<UnreachableInst>(&I)) d.op = D_UNREACH;
    else if (auto *C = dyn_cast<CallBase>(&I)) {
      d.op = isa<InvokeInst>(C) ? D_INVOKE : D_CALL; if (auto *V = dyn_cast<InvokeInst>(C)) { d.e0 = edge(&B, V->getNormalDest()); d.e1 = edge(&B, V->getUnwindDest()); }
      if (C->isInlineAsm()) { d.op = D_UNSUP; continue; }
      for (auto &A : C->args()) { if (A->getType()->isMetadataTy()) continue; d.ops.push_back(op(A)); d.scale.push_back(nslots(A->getType())); d.ws.push_back(width(A->getType())); }
      d.nfixed = C->getFunctionType()->getNumParams(); d.rw = d.w;
      if (auto *cf = dyn_cast<Function>(C->getCalledOperand()->stripPointerCastsAndAliases())) d.callee = fnOf[cf]; else d.a = op(C->getCalledOperand());
      d.noyield = false; }
    else if (isa<ResumeInst>(&I)) { d.op = D_RESUME; d.a = op(I.getOperand(0)); }
    else if (auto *L = dyn_cast<LandingPadInst>(&I)) { d.op = D_LPAD; d.cleanup = L->isCleanup(); for (unsigned i = 0; i < L->getNumClauses(); i++) { std::vector<Val> o; if (L->isCatch(i)) { evalConst(L->getClause(i), o); d.clauses.push_back({0, o.empty() ? 0 : o[0].c}); } else d.clauses.push_back({1, 0}); } }
    else if (auto *Bo = dyn_cast<BinaryOperator>(&I)) { static const std::map<unsigned, EOp> mp = {{Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV}, {Instruction::SDiv, E_SDIV}, {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::And, E_AND}, {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}, {Instruction::FAdd, E_FADD}, {Instruction::FSub, E_FSUB}, {Instruction::FMul, E_FMUL}, {Instruction::FDiv, E_FDIV}};
      auto it = mp.find(Bo->getOpcode()); if (it != mp.end() && d.nd == 1 && d.w && d.w <= 64) { d.op = D_BIN; d.aux = it->second; d.a = op(Bo->getOperand(0)); d.b = op(Bo->getOperand(1)); if (auto *O = dyn_cast<OverflowingBinaryOperator>(Bo)) d.nsw = O->hasNoSignedWrap() ? 1 : 0; } }
    else if (auto *U = dyn_cast<UnaryOperator>(&I)) { if (d.nd == 1 && d.w) { d.op = D_FNEG; d.a = op(U->getOperand(0)); } }
    else if (auto *IC = dyn_cast<ICmpInst>(&I)) { d.w2 = width(IC->getOperand(0)->getType()); if (d.nd == 1 && d.w2 && d.w2 <= 64) { d.op = D_ICMP; d.aux = IC->getPredicate(); d.a = op(IC->getOperand(0)); d.b = op(IC->getOperand(1)); } }
    else if (auto *FC = dyn_cast<FCmpInst>(&I)) { d.w2 = width(FC->getOperand(0)->getType()); if (d.nd == 1 && d.w2) { d.op = D_FCMP; d.aux = FC->getPredicate(); d.a = op(FC->getOperand(0)); d.b = op(FC->getOperand(1)); } }
    else if (auto *L = dyn_cast<LoadInst>(&I)) { d.op = D_LOAD; d.a = op(L->getPointerOperand()); d.leaves = leavesOf(L->getType()); d.atomic = L->isAtomic(); d.volat = L->isVolatile(); for (auto &l : d.leaves) if (!l.w || l.w > 64) d.op = D_UNSUP; }
    else if (auto *St = dyn_cast<StoreInst>(&I)) { d.op = D_STORE; d.a = op(St->getPointerOperand()); d.b = op(St->getValueOperand()); d.leaves = leavesOf(St->getValueOperand()->getType()); d.atomic = St->isAtomic(); d.volat = St->isVolatile(); for (auto &l : d.leaves) if (!l.w || l.w > 64) d.op = D_UNSUP; }
    else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { if (d.nd == 1) { d.op = D_GEP; d.a = op(G->getPointerOperand()); uint64_t off = 0;
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) { const Value *ix = it.getOperand();
          if (auto *ST = it.getStructTypeOrNull()) off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { uint64_t sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sz; else { d.ops.push_back(op(ix)); d.scale.push_back(sz); d.ws.push_back(width(ix->getType())); } } }
        d.imm = off; } }
    else if (auto *C = dyn_cast<CastInst>(&I)) { d.w2 = width(C->getOperand(0)->getType()); d.a = op(C->getOperand(0)); if (d.nd == 1 && d.w && d.w <= 64 && d.w2 && d.w2 <= 64) switch (C->getOpcode()) {
        case Instruction::Trunc: d.op = D_TRUNC; break; case Instruction::ZExt: d.op = D_ZEXT; break; case Instruction::SExt: d.op = D_SEXT; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: d.op = d.w < d.w2 ? D_TRUNC : D_ZEXT; break; case Instruction::BitCast: d.op = D_MOV; break;
        case Instruction::FPToSI: d.op = D_FCAST; d.aux = E_FTOSI; break; case Instruction::FPToUI: d.op = D_FCAST; d.aux = E_FTOUI; break; case Instruction::SIToFP: d.op = D_FCAST; d.aux = E_SITOF; break; case Instruction::UIToFP: d.op = D_FCAST; d.aux = E_UITOF; break;
        case Instruction::FPExt: d.op = D_FCAST; d.aux = E_FEXT; break; case Instruction::FPTrunc: d.op = D_FCAST; d.aux = E_FTRUNCP; break; default: break; } }
    else if (auto *Se = dyn_cast<SelectInst>(&I)) { if (!Se->getCondition()->getType()->isVectorTy()) { d.op = D_SELECT; d.a = op(Se->getCondition()); d.b = op(Se->getTrueValue()); d.c = op(Se->getFalseValue()); d.leaves = leavesOf(Se->getType()); } }
    else if (auto *Fz = dyn_cast<FreezeInst>(&I)) { d.op = D_MOV; d.a = op(Fz->getOperand(0)); }
    else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { d.op = D_EXTRACTV; Type *T = EV->getAggregateOperand()->getType(); int o = 0; for (unsigned ix : EV->indices()) { if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned i = 0; i < ix; i++) o += nslots(ST->getElementType(i)); T = ST->getElementType(ix); } else { auto *AT = cast<ArrayType>(T); o += ix * nslots(AT->getElementType()); T = AT->getElementType(); } } d.a = op(EV->getAggregateOperand()); d.imm = o; }
    else if (auto *IV = dyn_cast<InsertValueInst>(&I)) { d.op = D_INSERTV; Type *T = IV->getType(); int o = 0; for (unsigned ix : IV->indices()) { if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned i = 0; i < ix; i++) o += nslots(ST->getElementType(i)); T = ST->getElementType(ix); } else { auto *AT = cast<ArrayType>(T); o += ix * nslots(AT->getElementType()); T = AT->getElementType(); } } d.a = op(IV->getAggregateOperand()); d.b = op(IV->getInsertedValueOperand()); d.c = nslots(IV->getInsertedValueOperand()->getType()); d.imm = o; }
    else if (auto *Al = dyn_cast<AllocaInst>(&I)) { d.op = D_ALLOCA; d.imm = DL->getTypeAllocSize(Al->getAllocatedType()); d.a = op(Al->getArraySize()); d.w2 = width(Al->getArraySize()->getType()); }
    else if (auto *RM = dyn_cast<AtomicRMWInst>(&I)) { d.w = width(RM->getType()); d.op = D_RMW; d.aux = RM->getOperation(); d.a = op(RM->getPointerOperand()); d.b = op(RM->getValOperand()); d.atomic = true; d.noyield = noYieldLoc(&I); }
    else if (auto *CX = dyn_cast<AtomicCmpXchgInst>(&I)) { d.op = D_CMPXCHG; d.a = op(CX->getPointerOperand()); d.b = op(CX->getCompareOperand()); d.c = op(CX->getNewValOperand()); d.w = width(CX->getCompareOperand()->getType()); d.atomic = true; d.noyield = noYieldLoc(&I); }
    else if (isa<FenceInst>(&I)) d.op = D_FENCE;
    if (d.atomic && (d.op == D_LOAD || d.op == D_STORE)) d.noyield = noYieldLoc(&I);
    if (bad) d.op = D_UNSUP; }
  f->nregs = n;
}
// ------------------------------------------------------------------ evaluation helpers
static inline const Val &g(Frame &f, int s) { return s >= 0 ? f.r[s] : f.fn->consts[-1 - s]; }
static inline const Val &gi(Frame &f, int s, int i) { return s >= 0 ? f.r[s + i] : f.fn->consts[-1 - s + i]; }
static void follow(State &S, Edge &e) {
  Frame &f = S.F();
  if (!e.mv.empty()) { if (e.mv.size() == 1) { auto &m = e.mv[0]; if (m.n == 1) f.r[m.dst] = g(f, m.src); else { std::vector<Val> t; for (int i = 0; i < m.n; i++) t.push_back(gi(f, m.src, i)); for (int i = 0; i < m.n; i++) f.r[m.dst + i] = t[i]; } }
    else { static std::vector<Val> t; t.clear(); for (auto &m : e.mv) for (int i = 0; i < m.n; i++) t.push_back(gi(f, m.src, i)); size_t k = 0; for (auto &m : e.mv) for (int i = 0; i < m.n; i++) f.r[m.dst + i] = t[k++]; } }
  f.pc = e.target;
}
static void popFrame(State &S) { Frame &f = S.F(); for (auto id : f.al) freeObj(S, id); S.T().st.pop_back(); }
static void pushCall(State &S, FnD *fn, const std::vector<Val> &args, size_t nfixedSlots) {
  if (!fn->decoded) decode(fn); fn->calls++;
  if (S.T().st.size() > 2000) violation("hang", "unbounded recursion in " + demangle(fn->name));
  S.T().st.emplace_back(); Frame &f = S.F(); f.fn = fn; f.pc = 0; f.r.resize(fn->nregs);
  size_t na = 0; for (auto &a : fn->args) na += a.second;
  for (size_t i = 0; i < na && i < args.size(); i++) f.r[i] = args[i];
  for (size_t i = na; i < args.size(); i++) f.va.push_back(args[i]);
  for (auto &bvp : fn->byval) { int s = fn->args[bvp.first].first; uint64_t a = newObj(S, bvp.second, K_STACK, "byval", true); S.F().al.push_back(a >> 24); uint64_t src = S.F().r[s].c; copyMem(S, a, src, bvp.second); S.F().r[s] = Val(a); }
}
static void retTo(State &S, const std::vector<Val> &v) { // return from callee into S.F() at a call/invoke
  Frame &f = S.F(); DI &d = f.fn->code[f.pc];
  for (int i = 0; i < d.nd; i++) f.r[d.dst + i] = i < (int)v.size() ? v[i] : Val(0);
  if (d.op == D_INVOKE) follow(S, d.e0); else f.pc++;
}
// ------------------------------------------------------------------ exceptions
static std::string tiKind(State &S, uint64_t ti) { Val v = loadMem(S, Val(ti), 64); auto it = gvName.find(v.c >> 24); return it == gvName.end() ? "" : it->second; }
struct BaseT { uint64_t ti; int64_t off; bool pub, virt; };
static std::vector<BaseT> bases(State &S, uint64_t ti) { std::vector<BaseT> r; std::string k = tiKind(S, ti);
  if (k == "_ZTVN10__cxxabiv120__si_class_type_infoE") r.push_back({loadMem(S, Val(ti + 16), 64).c, 0, true, false});
  else if (k == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") { uint32_t n = loadMem(S, Val(ti + 20), 32).c; for (uint32_t i = 0; i < n; i++) { uint64_t b = loadMem(S, Val(ti + 24 + 16 * i), 64).c, fl = loadMem(S, Val(ti + 32 + 16 * i), 64).c; r.push_back({b, (int64_t)fl >> 8, (fl & 2) != 0, (fl & 1) != 0}); } }
  return r; }
static bool upcast(State &S, uint64_t from, uint64_t to, uint64_t p, uint64_t &out) {
  if (from == to) { out = p; return true; }
  for (auto &b : bases(S, from)) { if (!b.pub) continue; uint64_t q = p; if (b.virt) { uint64_t vt = loadMem(S, Val(p), 64).c; q = p + (int64_t)loadMem(S, Val(vt + b.off), 64).c; } else q = p + b.off; if (upcast(S, b.ti, to, q, out)) return true; }
  return false;
}
static bool catches(State &S, uint64_t clause, uint64_t exc, uint64_t &adj) {
  uint64_t ty = S.exc[exc].type; adj = exc; if (clause == 0) return true; if (clause == ty) return true;
  std::string k = tiKind(S, ty); if (k == "_ZTVN10__cxxabiv119__pointer_type_infoE" || k == "_ZTVN10__cxxabiv123__fundamental_type_infoE") return false;
  return upcast(S, ty, clause, exc, adj);
}
static DI *lpadOf(Frame &f) { DI &d = f.fn->code[f.pc]; if (d.op != D_INVOKE) return nullptr; DI &l = f.fn->code[d.e1.target]; return l.op == D_LPAD ? &l : nullptr; }
static std::string typeName(State &S, uint64_t ti) { auto it = gvName.find(ti >> 24); return it == gvName.end() ? "?" : demangle(it->second); }
static void unwind(State &S, uint64_t exc) { // the top frame is the one whose call/invoke threw
  while (true) {
    if (S.T().st.empty()) violation("terminate", "exception escaped a thread");
    Frame &f = S.F(); DI *l = lpadOf(f);
    if (l) { uint64_t sel = 0; bool enter = l->cleanup; uint64_t adj;
      for (auto &c : l->clauses) { if (c.first == 1) { enter = true; sel = (uint64_t)-1; break; } if (catches(S, c.second, exc, adj)) { enter = true; sel = c.second ? c.second >> 24 : 0x7ffffff; S.exc[exc].adj = adj; break; } }
      if (enter) { S.T().lpExc = exc; S.T().lpSel = sel & 0xffffffff; DI &d = f.fn->code[f.pc]; follow(S, d.e1); return; } }
    popFrame(S);
  }
}
static void throwExc(State &S, uint64_t exc) {
  bool found = false; uint64_t adj; auto &st = S.T().st;
  for (int i = (int)st.size() - 1; i >= 0 && !found; i--) { DI *l = lpadOf(st[i]); if (l) for (auto &c : l->clauses) if (c.first == 1 || catches(S, c.second, exc, adj)) { found = true; break; } }
  if (!found) violation("terminate", "uncaught exception of type " + typeName(S, S.exc[exc].type));
  unwind(S, exc);
}
// ------------------------------------------------------------------ the step function
static Val binop(State &S, const DI &d, const Val &a, const Val &b) {
  EOp o = (EOp)d.aux; unsigned w = d.w;
  if (o == E_UDIV || o == E_SDIV || o == E_UREM || o == E_SREM) {
    if (b.e) { if (!decide(S, mkNot(mkBin(E_EQ, b.e, mkConst(0, w))))) violation("arith", "division by zero"); }
    else if (b.c == 0) violation("arith", "division by zero"); }
  if (!a.e && !b.e) { uint64_t r; if (o >= E_FADD) foldFP(o, w, w, 0, a.c, b.c, r); else foldBin(o, w, a.c, b.c, r); return Val(r); }
  return V(mkBin(o, X(a, w), X(b, w)));
}
static Val fcmp(unsigned pred, const Val &a, const Val &b, unsigned w) {
  auto un = [&]() { return mkBin(E_OR, mkFUn(E_FNAN, X(a, w), 1), mkFUn(E_FNAN, X(b, w), 1)); };
  auto eq = [&]() { return mkBin(E_FEQ, X(a, w), X(b, w)); }; auto lt = [&]() { return mkBin(E_FLT, X(a, w), X(b, w)); }; auto le = [&]() { return mkBin(E_FLE, X(a, w), X(b, w)); };
  auto gt = [&]() { return mkBin(E_FLT, X(b, w), X(a, w)); }; auto ge = [&]() { return mkBin(E_FLE, X(b, w), X(a, w)); };
  switch (pred) {
  case CmpInst::FCMP_FALSE: return Val(0); case CmpInst::FCMP_TRUE: return Val(1);
  case CmpInst::FCMP_OEQ: return V(eq()); case CmpInst::FCMP_OGT: return V(gt()); case CmpInst::FCMP_OGE: return V(ge()); case CmpInst::FCMP_OLT: return V(lt()); case CmpInst::FCMP_OLE: return V(le());
  case CmpInst::FCMP_ONE: return V(mkBin(E_OR, lt(), gt())); case CmpInst::FCMP_ORD: return V(mkNot(un())); case CmpInst::FCMP_UNO: return V(un());
  case CmpInst::FCMP_UEQ: return V(mkBin(E_OR, un(), eq())); case CmpInst::FCMP_UGT: return V(mkNot(le())); case CmpInst::FCMP_UGE: return V(mkNot(lt())); case CmpInst::FCMP_ULT: return V(mkNot(ge())); case CmpInst::FCMP_ULE: return V(mkNot(gt()));
  case CmpInst::FCMP_UNE: return V(mkNot(eq())); }
  return Val(0);
}
static Val icmp(unsigned p, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e) { uint64_t x = a.c, y = b.c; int64_t sx_ = sextw(x, w), sy = sextw(y, w); x &= maskw(w); y &= maskw(w);
    switch (p) { case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_UGE: return x >= y; case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y; case CmpInst::ICMP_SGT: return sx_ > sy; case CmpInst::ICMP_SGE: return sx_ >= sy; case CmpInst::ICMP_SLT: return sx_ < sy; default: return sx_ <= sy; } }
  ExprP x = X(a, w), y = X(b, w);
  switch (p) { case CmpInst::ICMP_EQ: return V(mkBin(E_EQ, x, y)); case CmpInst::ICMP_NE: return V(mkNot(mkBin(E_EQ, x, y))); case CmpInst::ICMP_UGT: return V(mkBin(E_ULT, y, x)); case CmpInst::ICMP_UGE: return V(mkBin(E_ULE, y, x)); case CmpInst::ICMP_ULT: return V(mkBin(E_ULT, x, y)); case CmpInst::ICMP_ULE: return V(mkBin(E_ULE, x, y)); case CmpInst::ICMP_SGT: return V(mkBin(E_SLT, y, x)); case CmpInst::ICMP_SGE: return V(mkBin(E_SLE, y, x)); case CmpInst::ICMP_SLT: return V(mkBin(E_SLT, x, y)); default: return V(mkBin(E_SLE, x, y)); }
}
static FnD *yieldFn = nullptr;
static bool atomicYield(State &S, const DI &d) { // scheduling point before an atomic access (run once per access)
  if (!S.race || S.T().raceOff || d.noyield || !yieldFn) return false;
  if (S.F().va.size() && S.F().va.back().c == 0xA70A1C0000ull + S.F().pc) { S.F().va.pop_back(); return false; }
  S.F().va.push_back(Val(0xA70A1C0000ull + S.F().pc)); return true;
}
static void step(State &S) {
  Frame &f = S.F(); DI &d = f.fn->code[f.pc]; d.hits++; S.ninst++; nInst++;
  switch (d.op) {
  case D_BR: follow(S, d.e0); return;
  case D_CBR: { const Val &c = g(f, d.a); bool v = c.e ? decide(S, c.e) : (c.c & 1); follow(S, v ? d.e0 : d.e1); return; }
  case D_SWITCH: { Val c = g(f, d.a);
    if (!c.e) { for (auto &k : d.cases) if (k.first == c.c) { follow(S, k.second); return; } follow(S, d.e0); return; }
    // group the cases by target so that the fork is per destination
    uint64_t mv = evalExpr(c.e, S.m); int tgt = -1; for (size_t i = 0; i < d.cases.size(); i++) if (d.cases[i].first == mv) tgt = i;
    auto same = [](const Edge &x, const Edge &y) { if (x.target != y.target) return false; for (size_t i = 0; i < x.mv.size(); i++) if (x.mv[i].src != y.mv[i].src) return false; return true; };
    ExprP any = mkConst(0, 1), mine = mkConst(0, 1); for (auto &k : d.cases) { ExprP e = mkBin(E_EQ, c.e, mkConst(k.first, d.w2)); any = mkBin(E_OR, any, e); if (tgt >= 0 && same(k.second, d.cases[tgt].second)) mine = mkBin(E_OR, mine, e); }
    if (tgt < 0) { decide(S, mkNot(any)); follow(S, d.e0); } else { decide(S, mine); follow(S, d.cases[tgt].second); } return; }
  case D_RET: { std::vector<Val> v; for (int i = 0; i < d.c; i++) v.push_back(gi(f, d.a, i)); popFrame(S);
    if (S.T().st.empty()) endPath(PATH_DONE); 
    { Frame &nf = S.F(); DI &nd = nf.fn->code[nf.pc]; if (nd.op != D_CALL && nd.op != D_INVOKE) return; /* yield inserted before an atomic access */ }
    retTo(S, v); return; }
  case D_UNREACH: violation("abort", "reached code the compiler proved unreachable (undefined behaviour)");
  case D_BIN: { Val r = binop(S, d, g(f, d.a), g(f, d.b)); f.r[d.dst] = r; f.pc++; return; }
  case D_ICMP: f.r[d.dst] = icmp(d.aux, g(f, d.a), g(f, d.b), d.w2); f.pc++; return;
  case D_FCMP: f.r[d.dst] = fcmp(d.aux, g(f, d.a), g(f, d.b), d.w2); f.pc++; return;
  case D_FNEG: { Val a = g(f, d.a); uint64_t sb = 1ull << (d.w - 1); f.r[d.dst] = a.e ? V(a.e->hasFP && isChain(a.e) ? mkBin(E_FSUB, mkConst(sb, 64), a.e) : mkBin(E_XOR, a.e, mkConst(sb, d.w))) : Val(a.c ^ sb); f.pc++; return; }
  case D_LOAD: {
    if (d.atomic && atomicYield(S, d)) { pushCall(S, yieldFn, {}, 0); return; }
    Val a = g(f, d.a); if (d.atomic && S.race) { S.T().vc.join(S.sync[a.c]); }
    if (d.leaves.size() == 1) { Val v = loadMem(S, a, d.leaves[0].w); S.F().r[d.dst] = v; }
    else for (size_t i = 0; i < d.leaves.size(); i++) { Val v = loadMem(S, a.e ? V(mkBin(E_ADD, a.e, mkConst(d.leaves[i].off, 64))) : Val(a.c + d.leaves[i].off), d.leaves[i].w); S.F().r[d.dst + i] = v; }
    S.F().pc++; return; }
  case D_STORE: {
    if (d.atomic && atomicYield(S, d)) { pushCall(S, yieldFn, {}, 0); return; }
    Val a = g(f, d.a); if (d.atomic && S.race) { S.sync[a.c].join(S.T().vc); S.T().vc.c[S.cur]++; }
    for (size_t i = 0; i < d.leaves.size(); i++) { Val v = gi(f, d.b, i); storeMem(S, a.e ? V(mkBin(E_ADD, a.e, mkConst(d.leaves[i].off, 64))) : Val(a.c + d.leaves[i].off), v, d.leaves[i].w); }
    S.F().pc++; return; }
  case D_GEP: { const Val &p = g(f, d.a); bool sym = p.e; for (size_t i = 0; i < d.ops.size(); i++) sym |= g(f, d.ops[i]).e != nullptr;
    if (!sym) { uint64_t r = p.c + d.imm; for (size_t i = 0; i < d.ops.size(); i++) r += (uint64_t)sextw(g(f, d.ops[i]).c, d.ws[i]) * d.scale[i]; f.r[d.dst] = Val(r); }
    else { ExprP r = X(p, 64); for (size_t i = 0; i < d.ops.size(); i++) r = mkBin(E_ADD, r, mkBin(E_MUL, mkSext(X(g(f, d.ops[i]), d.ws[i]), 64), mkConst(d.scale[i], 64))); f.r[d.dst] = V(mkBin(E_ADD, r, mkConst(d.imm, 64))); }
    f.pc++; return; }
  case D_TRUNC: { const Val &a = g(f, d.a); f.r[d.dst] = a.e ? V(mkExtract(a.e, 0, d.w)) : Val(a.c & maskw(d.w)); f.pc++; return; }
  case D_ZEXT: { const Val &a = g(f, d.a); f.r[d.dst] = a.e ? V(mkZext(a.e, d.w)) : Val(a.c & maskw(d.w2)); f.pc++; return; }
  case D_SEXT: { const Val &a = g(f, d.a); f.r[d.dst] = a.e ? V(mkSext(a.e, d.w)) : Val((uint64_t)sextw(a.c, d.w2) & maskw(d.w)); f.pc++; return; }
  case D_MOV: for (int i = 0; i < d.nd; i++) { Val t = gi(f, d.a, i); f.r[d.dst + i] = t; } f.pc++; return;
  case D_FCAST: { const Val &a = g(f, d.a); if (!a.e) { uint64_t o; foldFP((EOp)d.aux, d.w, d.w2, 0, a.c, 0, o); f.r[d.dst] = Val(o); } else { ExprP x = a.e; if ((d.aux == E_FTOSI || d.aux == E_FTOUI) && d.w2 == 64 && isChain(x)) x = roundTo(S, x, 64, 2); f.r[d.dst] = V(mkFUn((EOp)d.aux, x, d.w)); } f.pc++; return; }
  case D_SELECT: { Val c = g(f, d.a);
    if (c.e) for (int i = 0; i < d.nd; i++) { Val x = gi(f, d.b, i), y = gi(f, d.c, i); if ((x.e && x.e->hasFP) || (y.e && y.e->hasFP)) { c = Val(decide(S, c.e) ? 1 : 0); break; } }   // keep floating point values free of choices
    for (int i = 0; i < d.nd; i++) { Val x = gi(f, d.b, i), y = gi(f, d.c, i); f.r[d.dst + i] = !c.e ? (c.c & 1 ? x : y) : V(mkIte(c.e, X(x, d.leaves[i].w), X(y, d.leaves[i].w))); } f.pc++; return; }
  case D_EXTRACTV: for (int i = 0; i < d.nd; i++) { Val t = gi(f, d.a, d.imm + i); f.r[d.dst + i] = t; } f.pc++; return;
  case D_INSERTV: { for (int i = 0; i < d.nd; i++) { Val t = gi(f, d.a, i); f.r[d.dst + i] = t; } for (int i = 0; i < d.c; i++) { Val t = gi(f, d.b, i); f.r[d.dst + d.imm + i] = t; } f.pc++; return; }
  case D_ALLOCA: { uint64_t n = concretize(S, g(f, d.a), d.w2); uint64_t a = newObj(S, d.imm * n, K_STACK, "stack", true); S.F().al.push_back(a >> 24); S.F().r[d.dst] = Val(a); S.F().pc++; return; }
  case D_RMW: {
    if (atomicYield(S, d)) { pushCall(S, yieldFn, {}, 0); return; }
    Val a = Val(concretize(S, g(f, d.a), 64)), b = g(f, d.b); if (S.race) { S.T().vc.join(S.sync[a.c]); S.sync[a.c].join(S.T().vc); S.T().vc.c[S.cur]++; }
    Val o = loadMem(S, a, d.w); ExprP x = X(o, d.w), y = X(b, d.w), r;
    switch (d.aux) { case AtomicRMWInst::Add: r = mkBin(E_ADD, x, y); break; case AtomicRMWInst::Sub: r = mkBin(E_SUB, x, y); break; case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::And: r = mkBin(E_AND, x, y); break; case AtomicRMWInst::Or: r = mkBin(E_OR, x, y); break; case AtomicRMWInst::Xor: r = mkBin(E_XOR, x, y); break; default: unmodelled("atomicrmw"); }
    storeMem(S, a, V(r), d.w); S.F().r[d.dst] = o; S.F().pc++; return; }
  case D_CMPXCHG: {
    if (atomicYield(S, d)) { pushCall(S, yieldFn, {}, 0); return; }
    Val a = Val(concretize(S, g(f, d.a), 64)); if (S.race) { S.T().vc.join(S.sync[a.c]); S.sync[a.c].join(S.T().vc); S.T().vc.c[S.cur]++; }
    Val o = loadMem(S, a, d.w); ExprP eq = mkBin(E_EQ, X(o, d.w), X(g(S.F(), d.b), d.w));
    storeMem(S, a, V(mkIte(eq, X(g(S.F(), d.c), d.w), X(o, d.w))), d.w); S.F().r[d.dst] = o; S.F().r[d.dst + 1] = V(eq); S.F().pc++; return; }
  case D_FENCE: f.pc++; return;
  case D_LPAD: { f.r[d.dst] = Val(S.T().lpExc); f.r[d.dst + 1] = Val(S.T().lpSel); f.pc++; return; }
  case D_RESUME: { Val ex = gi(f, d.a, 0); popFrame(S); unwind(S, ex.c); return; }
  case D_CALL: case D_INVOKE: {
    FnD *fn = d.callee; 
    if (!fn) { uint64_t t = concretize(S, g(f, d.a), 64); auto it = fnAt.find(t); if (it == fnAt.end()) violation("memory", "call through a bad function pointer: " + addrStr(t)); fn = it->second; }
    std::vector<Val> args; Frame &ff = S.F(); for (size_t i = 0; i < d.ops.size(); i++) for (uint64_t j = 0; j < d.scale[i]; j++) args.push_back(gi(ff, d.ops[i], j));
    if (fn->bi >= 0) { builtins[fn->bi].second(S, d, args); return; }
    if (!fn->hasBody) unmodelled("function " + demangle(fn->name));
    pushCall(S, fn, args, 0); return; }
  case D_UNSUP: { std::string s; raw_string_ostream os(s); d.I->print(os); unmodelled("instruction " + s.substr(0, 120)); }
  }
}
#include "builtins.inc"

// ------------------------------------------------------------------ setup and main loop
static void writeConst(State &S, uint64_t addr, const Constant *C) {
  Type *T = C->getType(); if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) { MObj *o = wobj(S, addr >> 24); StringRef r = D->getRawDataValues(); memcpy(&o->b[addr & 0xffffff], r.data(), r.size()); return; }
  std::vector<Val> v; auto L = leavesOf(T); if (!evalConst(C, v) || v.size() != L.size()) { fprintf(stderr, "warning: unsupported initialiser\n"); return; }
  for (size_t i = 0; i < v.size(); i++) { MObj *o = wobj(S, addr >> 24); writeAt(o, (addr & 0xffffff) + L[i].off, (L[i].w + 7) / 8, v[i], L[i].w); }
}
static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
int runMain(int argc, char **argv) {
  std::string file, entry, out = "-"; double t0 = now();
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--max-inst") optMaxInst = std::stoull(nx()); else if (a == "--max-paths") optMaxPaths = std::stoull(nx());
    else if (a == "--time") optTime = std::stod(nx()); else if (a == "--solver-ms") g_timeout_ms = std::stoul(nx()); else if (a == "--samples") optSamples = std::stoi(nx()); else if (a == "--seed") optSeed = std::stoull(nx());
    else if (a == "--track") optTrack = nx(); else if (a == "--dump") g_dumpdir = nx(); else if (a == "--no-undef") optCheckUndef = false;
    else if (file.empty()) file = a; else params.push_back(std::stoull(a)); }
  SMDiagnostic err; Mod = parseIRFile(file, err, Ctx); if (!Mod) { err.print("sodasym", errs()); return 3; } DL = &Mod->getDataLayout();
  UNDEF = mkVar("UNDEF", 8); registerBuiltins();
  State S; CS = &S; 
  for (auto &F : *Mod) { FnD *f = new FnD; f->F = &F; f->name = F.getName().str(); f->hasBody = !F.isDeclaration(); f->vararg = F.isVarArg(); fnOf[&F] = f; f->addr = newObj(S, 1, K_FUNC, "function", false); fnAt[f->addr] = f; gvName[f->addr >> 24] = f->name;
    auto it = biIndex.find(f->name); if (it != biIndex.end()) f->bi = it->second; else if (F.isIntrinsic()) f->bi = intrinsicIndex(f->name); }
  for (auto &G : Mod->globals()) { uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8; if (!G.hasInitializer() && sz < 64) sz = 64; gvAddr[&G] = newObj(S, sz, K_GLOBAL, "global", false); gvName[gvAddr[&G] >> 24] = G.getName().str(); }
  for (auto &G : Mod->globals()) if (G.hasInitializer()) writeConst(S, gvAddr[&G], G.getInitializer());
  // type descriptions that live in the run-time library: give them their names
  for (auto &G : Mod->globals()) if (!G.hasInitializer() && G.getName().starts_with("_ZTI")) { std::string nm = G.getName().substr(4).str(); uint64_t a = newObj(S, nm.size() + 1, K_GLOBAL, "type name", false); MObj *n = wobj(S, a >> 24); memcpy(n->b.data(), nm.c_str(), nm.size() + 1); n->ro = true; memcpy(wobj(S, gvAddr[&G] >> 24)->b.data() + 8, &a, 8); }
  for (auto &G : Mod->globals()) { MObj *o = wobj(S, gvAddr[&G] >> 24); if (G.isConstant()) o->ro = true; if (G.getName().starts_with("vt_nr_") || G.getName().starts_with("_ZL6vt_nr_")) o->norace = true; }
  Function *E = Mod->getFunction(entry); if (!E) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  if (Function *Y = Mod->getFunction("vt_yield")) yieldFn = fnOf[Y];
  S.th.resize(1);
  std::vector<FnD *> init; if (auto *GC = Mod->getGlobalVariable("llvm.global_ctors")) if (auto *A = dyn_cast<ConstantArray>(GC->getInitializer())) { std::vector<std::pair<uint64_t, FnD *>> v; for (auto &o : A->operands()) { auto *st = cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fnOf[cast<Function>(st->getOperand(1)->stripPointerCasts())]}); } std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &p : v) init.push_back(p.second); }
  try { for (auto *fn : init) { pushCall(S, fn, {}, 0); try { while (true) { if (S.T().st.empty()) break; step(S); } } catch (EndEx &e) { if (e.e != PATH_DONE) throw; } S.T().st.clear(); } } catch (EndEx &e) { fprintf(stderr, "initialisers failed: %s\n", unmod.empty() ? (viols.empty() ? "?" : viols[0].msg.c_str()) : unmod.begin()->first.c_str()); return 3; }
  S.ninst = 0; pushCall(S, fnOf[E], {}, 0);
  work.push_back(S); tEnd = t0 + optTime; uint64_t rng = optSeed * 0x9E3779B97F4A7C15ull + 1; bool truncated = false; std::string exhausted;
  size_t maxWork = 0;
  while (!work.empty()) {
    if (nPaths >= optMaxPaths || now() > tEnd) { truncated = true; break; }
    if (work.size() > maxWork) maxWork = work.size();
    State st = std::move(work.back()); work.pop_back(); CS = &st; nPaths++; End e = CONT;
    // decide() may push to work while stepping: the vector is only touched there
    try { while (true) { 
        for (int i = 0; i < 4096; i++) step(st);
        if (st.ninst > optMaxInst) violation("hang", "no result after " + std::to_string(optMaxInst) + " instructions");
        if (now() > tEnd) { truncated = true; break; } } }
    catch (EndEx &x) { e = x.e; }
    if (e == PATH_DONE) { nDone++; for (auto c : st.covers) covers[c]++;
      // sample passing paths (reservoir) for replay against the real build
      std::string o; rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; size_t k = nDone <= (uint64_t)optSamples ? nDone - 1 : rng % nDone;
      if (k < (size_t)optSamples) { for (auto &b : st.obs) { if (!o.empty()) o += " "; o += std::to_string(b.val(st.m)); } std::string l = logStr(st, st.m); if (k < samples.size()) { samples[k] = l; sampleObs[k] = o; } else { samples.push_back(l); sampleObs.push_back(o); } } }
    else if (e == PATH_ASSUME) nAssume++; else if (e == PATH_TIME) truncated = true;
  }
  // coverage of the tracked sources
  std::map<std::string, std::set<unsigned>> lines, hit; std::set<std::string> funcs;
  for (auto &p : fnOf) { FnD *f = p.second; if (!f->hasBody) continue; if (!f->decoded) decode(f);
    for (auto &d : f->code) { DILocation *L = d.I->getDebugLoc().get(); for (; L; L = L->getInlinedAt()) { std::string fl = L->getFilename().str(); if (fl.compare(0, optTrack.size(), optTrack) != 0) continue; if (L->getLine() == 0) continue; lines[fl].insert(L->getLine()); if (d.hits) { hit[fl].insert(L->getLine()); if (auto *sp = L->getScope()->getSubprogram()) { std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str()); funcs.insert(nm.substr(0, nm.find('('))); } } } } }
  std::ostringstream J; J << "{\"paths\":" << nPaths << ",\"completed\":" << nDone << ",\"assumed_away\":" << nAssume << ",\"violating\":" << nViolPaths << ",\"unmodelled_paths\":" << nUnmod << ",\"pruned\":" << nPruned << ",\"left\":" << work.size() << ",\"truncated\":" << (truncated ? "true" : "false")
    << ",\"forks\":" << nForks << ",\"instructions\":" << nInst << ",\"choices\":" << nChoices << ",\"asserts\":" << nAsserts << ",\"assert_queries\":" << nAssertQ << ",\"variables\":" << g_vars.size()
    << ",\"queries\":" << g_sstats.queries << ",\"z3_calls\":" << g_sstats.z3calls << ",\"sat\":" << g_sstats.sat << ",\"unsat\":" << g_sstats.unsat << ",\"unknown\":" << g_sstats.unknown << ",\"cache_hits\":" << g_sstats.cachehits << ",\"solver_s\":" << g_sstats.secs << ",\"solver_max_s\":" << g_sstats.maxsecs << ",\"wall_s\":" << now() - t0;
  auto mp = [&](const char *n, auto &m) { J << ",\"" << n << "\":{"; bool first = true; for (auto &p : m) { J << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; } J << "}"; };
  mp("unmodelled", unmod); mp("inconclusive", inconc); mp("covers", covers);
  J << ",\"violations\":["; for (size_t i = 0; i < viols.size(); i++) J << (i ? "," : "") << "{\"kind\":\"" << viols[i].kind << "\",\"msg\":\"" << jesc(viols[i].msg) << "\",\"where\":\"" << jesc(viols[i].where) << "\",\"log\":\"" << viols[i].log << "\"}"; J << "]";
  J << ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) J << (i ? "," : "") << "{\"log\":\"" << samples[i] << "\",\"obs\":\"" << sampleObs[i] << "\"}"; J << "]";
  J << ",\"lines\":{"; { bool first = true; for (auto &p : lines) { J << (first ? "" : ",") << "\"" << jesc(p.first) << "\":[["; bool f2 = true; for (auto l : hit[p.first]) { J << (f2 ? "" : ",") << l; f2 = false; } J << "],["; f2 = true; for (auto l : p.second) { J << (f2 ? "" : ",") << l; f2 = false; } J << "]]"; first = false; } } J << "}";
  J << ",\"functions\":["; { bool first = true; for (auto &s : funcs) { J << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; } } J << "]}";
  if (out == "-") std::cout << J.str() << "\n"; else { std::ofstream o(out); o << J.str() << "\n"; }
  fflush(stdout); std::cout.flush(); _exit(0);
}
}
int main(int argc, char **argv) { struct rlimit rl; rl.rlim_cur = rl.rlim_max = 512u << 20; setrlimit(RLIMIT_STACK, &rl); return sx::runMain(argc, argv); }

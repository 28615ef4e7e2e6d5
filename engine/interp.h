// Decoded program representation and symbolic machine state.
#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>
#include <functional>

namespace sx {
struct Val { uint64_t c = 0; ExprP e = nullptr; Val() {} Val(uint64_t x) : c(x) {} Val(uint64_t x, ExprP y) : c(x), e(y) {} };
inline Val V(ExprP e) { if (e->op == E_CONST) return Val(e->c); return Val(0, e); }
inline ExprP X(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

enum DOp : uint8_t { D_RET, D_BR, D_CBR, D_SWITCH, D_UNREACH, D_CALL, D_INVOKE, D_RESUME, D_LPAD,
  D_BIN, D_ICMP, D_FCMP, D_FNEG, D_LOAD, D_STORE, D_GEP, D_TRUNC, D_ZEXT, D_SEXT, D_MOV, D_FCAST, D_SELECT,
  D_EXTRACTV, D_INSERTV, D_ALLOCA, D_RMW, D_CMPXCHG, D_FENCE, D_UNSUP };
struct Move { int dst, src, n; };
struct Edge { int target = -1; std::vector<Move> mv; };
struct Leaf { unsigned w; uint64_t off; };
struct FnD;
struct DI {
  DOp op; uint8_t w = 0, w2 = 0; uint16_t aux = 0; bool atomic = false, noyield = false, volat = false; uint8_t nsw = 0; // nsw: 1 signed, 2 unsigned
  uint32_t hits = 0;
  int dst = -1, nd = 0; int a = 0, b = 0, c = 0;
  uint64_t imm = 0;
  std::vector<int> ops;                 // call args (first slot index of each) / gep variable operands
  std::vector<uint64_t> scale;          // gep scales / arg slot counts
  std::vector<uint8_t> ws;              // gep operand widths
  std::vector<Leaf> leaves;             // load/store aggregate
  Edge e0, e1; std::vector<std::pair<uint64_t, Edge>> cases;
  FnD *callee = nullptr; int bi = -1;   // direct callee or builtin
  int nfixed = 0; unsigned rw = 0;
  // landing pad
  bool cleanup = false; std::vector<std::pair<int, uint64_t>> clauses; // kind 0 catch 1 filter ; typeinfo address (0 = catch all / empty filter)
  const llvm::Instruction *I = nullptr;
};
struct FnD {
  std::string name; const llvm::Function *F = nullptr; bool decoded = false, hasBody = false, vararg = false;
  std::vector<DI> code; std::vector<Val> consts; int nregs = 0; std::vector<std::pair<int,int>> args; // slot,n
  std::vector<std::pair<int,uint64_t>> byval; // arg index -> size to copy
  uint64_t addr = 0; int bi = -1; uint64_t calls = 0;
};
static const int NTH = 21;   // threads, the main one included
struct Shadow { uint32_t w = 0; uint32_t r[NTH] = {0}; const DI *wi = nullptr; const DI *ri = nullptr; }; // w: tid<<24|clk
struct MObj {
  uint32_t size = 0; uint8_t kind = 0; bool ro = false, norace = false; std::vector<uint8_t> b; std::vector<ExprP> s; std::vector<Shadow> sh; const char *name = ""; 
};
enum { K_GLOBAL, K_STACK, K_HEAP, K_FUNC };
typedef std::shared_ptr<MObj> MObjP;
struct Chunk { MObjP o[128]; };
struct Frame { FnD *fn; int pc; std::vector<Val> r; std::vector<uint64_t> al; std::vector<Val> va; };
struct VC { uint32_t c[NTH] = {0}; void join(const VC &o) { for (int i = 0; i < NTH; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Thread { std::vector<Frame> st; std::vector<uint64_t> caught; uint64_t lpExc = 0, lpSel = 0; VC vc; int raceOff = 0; };
struct ExcRec { uint64_t type = 0, dtor = 0, adj = 0; int handlers = 0; bool rethrown = false; };
struct Draw { ExprP e; uint64_t c; uint8_t kind; const char *name; };   // one harness draw (symbolic value)
struct Obs { ExprP e; uint64_t c; uint64_t val(const Model &m) const { return e ? evalExpr(e, m) : c; } };
struct State {
  std::vector<Thread> th; int cur = 0;
  std::vector<std::shared_ptr<Chunk>> mem; uint64_t nextId = 1;
  std::vector<ExprP> pc; Model m; std::vector<Draw> log; std::vector<Obs> obs;
  std::map<uint64_t, ExcRec> exc; std::map<uint64_t, VC> sync;
  uint64_t ninst = 0; ExprP pend = nullptr; uint64_t asserts = 0; uint64_t heapLive = 0; bool race = false; 
  std::vector<const char *> covers;
  Thread &T() { return th[cur]; } Frame &F() { return th[cur].st.back(); }
};
}

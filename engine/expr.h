// Hash-consed bit-vector expressions, simplifier, evaluator and Z3-backed solver.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>
#include <map>
#include <set>

namespace sx {
enum EOp : uint8_t {
  E_CONST, E_VAR,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT,
  // floating point (operands are the IEEE bit patterns, width 32 or 64)
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FEQ, E_FLT, E_FLE, E_FNAN,
  E_FTOSI, E_FTOUI, E_SITOF, E_UITOF, E_FEXT, E_FTRUNCP, E_FRND /*aux: 0 floor 1 ceil 2 trunc 3 round-away 4 rint*/,
  E_FSQRT
};
struct Expr {
  EOp op; uint8_t w; uint32_t aux;
  Expr *k[3];
  uint64_t c;           // constant value, or variable index
  uint32_t id;
  uint64_t lo, hi;      // unsigned value range
  bool hasFP;
  bool chain;           // monotone floating point steps over one leaf, see chainOf; cl and ch are its values at the leaf's lo and hi
  uint64_t cl, ch;
  std::shared_ptr<std::vector<uint32_t>> vars; // sorted variable indices
};
typedef Expr *ExprP;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;

ExprP mkConst(uint64_t v, unsigned w);
ExprP mkVar(const std::string &name, unsigned w);
ExprP mkBin(EOp op, ExprP a, ExprP b);
ExprP mkIte(ExprP c, ExprP a, ExprP b);
ExprP mkNot(ExprP a);             // boolean (w==1) negation
ExprP mkZext(ExprP a, unsigned w);
ExprP mkSext(ExprP a, unsigned w);
ExprP mkExtract(ExprP a, unsigned lo, unsigned w);
ExprP mkConcat(ExprP hi, ExprP lo);
ExprP mkFUn(EOp op, ExprP a, unsigned w, uint32_t aux = 0);
bool affineOf(ExprP e, ExprP &x, uint64_t &k, uint64_t &c);   // e = k*x + c without overflow
bool isChain(ExprP e);             // monotone floating point steps over one bit pattern or integer, never NaN
ExprP chainSign(ExprP e);         // its sign bit
bool foldFP(EOp op, unsigned w, unsigned aw, uint32_t aux, uint64_t a, uint64_t b, uint64_t &out);
bool foldBin(EOp op, unsigned w, uint64_t a, uint64_t b, uint64_t &out);
std::string str(ExprP e, int depth = 6);

struct Model {                     // assignment of variables (absent = 0)
  std::vector<uint64_t> v;
  uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; }
  void set(uint32_t i, uint64_t x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; }
};
uint64_t evalExpr(ExprP e, const Model &m);

struct SolverStats { uint64_t queries = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, cachehits = 0; double secs = 0, maxsecs = 0; uint64_t checked2 = 0, disagree2 = 0; };
extern SolverStats g_sstats;
extern unsigned g_timeout_ms;
extern std::string g_dumpdir;
// is PC && cond satisfiable?  base satisfies PC.  On SAT fills out (a full model).
enum SatRes { R_UNSAT, R_SAT, R_UNKNOWN };
SatRes solve(const std::vector<ExprP> &pc, ExprP cond, const Model &base, Model &out);
}

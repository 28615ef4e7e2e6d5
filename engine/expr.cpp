#include "expr.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cassert>
#include <cfenv>
#include <unistd.h>

namespace sx {
static bool leafBits(ExprP e); static bool finiteC(ExprP e); static double bd(uint64_t);
std::vector<VarInfo> g_vars;
SolverStats g_sstats;
unsigned g_timeout_ms = 60000;
std::string g_dumpdir;
static std::vector<ExprP> g_all;

struct Key { EOp op; uint8_t w; uint32_t aux; ExprP k[3]; uint64_t c; };
struct KH { size_t operator()(const Key &k) const {
  uint64_t h = k.op * 0x9E3779B97F4A7C15ull + k.w; 
  auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(k.aux); mix((uint64_t)k.k[0]); mix((uint64_t)k.k[1]); mix((uint64_t)k.k[2]); mix(k.c); return h; } };
struct KE { bool operator()(const Key &a, const Key &b) const { return a.op == b.op && a.w == b.w && a.aux == b.aux && a.c == b.c && a.k[0] == b.k[0] && a.k[1] == b.k[1] && a.k[2] == b.k[2]; } };
static std::unordered_map<Key, ExprP, KH, KE> g_tab;

static void computeRange(Expr *e) {
  uint64_t M = maskw(e->w);
  e->lo = 0; e->hi = M;
  ExprP a = e->k[0], b = e->k[1], c = e->k[2];
  switch (e->op) {
  case E_CONST: e->lo = e->hi = e->c; break;
  case E_ADD: if (a->hi + b->hi >= a->hi && a->hi + b->hi <= M) { e->lo = a->lo + b->lo; e->hi = a->hi + b->hi; }
    else if (b->op == E_CONST) { // x + negative constant
      uint64_t n = (0 - b->c) & M; if (a->lo >= n) { e->lo = a->lo - n; e->hi = a->hi - n; } }
    break;
  case E_SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
  case E_MUL: { __uint128_t p = (__uint128_t)a->hi * b->hi; if (p <= M) { e->lo = a->lo * b->lo; e->hi = (uint64_t)p; } break; }
  case E_UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
  case E_UREM: if (b->lo > 0) { e->hi = b->hi - 1; if (a->hi < e->hi) e->hi = a->hi; if (a->hi < b->lo) { e->lo = a->lo; e->hi = a->hi; } } break;
  case E_AND: e->hi = a->hi < b->hi ? a->hi : b->hi; break;
  case E_OR: { uint64_t m = a->hi | b->hi; for (int s = 1; s < 64; s <<= 1) m |= m >> s; e->hi = m & M; e->lo = a->lo > b->lo ? a->lo : b->lo; break; }
  case E_XOR: { uint64_t m = a->hi | b->hi; for (int s = 1; s < 64; s <<= 1) m |= m >> s; e->hi = m & M; break; }
  case E_LSHR: if (b->op == E_CONST && b->c < 64) { e->lo = a->lo >> b->c; e->hi = a->hi >> b->c; } else e->hi = a->hi; break;
  case E_SHL: if (b->op == E_CONST && b->c < e->w && (a->hi << b->c >> b->c) == a->hi && (a->hi << b->c) <= M) { e->lo = a->lo << b->c; e->hi = a->hi << b->c; } break;
  case E_ZEXT: e->lo = a->lo; e->hi = a->hi; break;
  case E_SEXT: if (a->hi <= maskw(a->w) >> 1) { e->lo = a->lo; e->hi = a->hi; } break;
  case E_EXTRACT: if (e->aux == 0 && a->hi <= M) { e->lo = a->lo; e->hi = a->hi; } break;
  case E_CONCAT: e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi; break;
  case E_ITE: e->lo = b->lo < c->lo ? b->lo : c->lo; e->hi = b->hi > c->hi ? b->hi : c->hi; break;
  default: break;
  }
}
static void markChain(Expr *e);
static ExprP intern(EOp op, unsigned w, ExprP a = nullptr, ExprP b = nullptr, ExprP c = nullptr, uint32_t aux = 0, uint64_t cv = 0) {
  Key k{op, (uint8_t)w, aux, {a, b, c}, cv};
  auto it = g_tab.find(k); if (it != g_tab.end()) return it->second;
  Expr *e = new Expr; e->op = op; e->w = w; e->aux = aux; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->c = cv; e->id = g_all.size();
  e->hasFP = op >= E_FADD;
  for (int i = 0; i < 3; i++) if (e->k[i] && e->k[i]->hasFP) e->hasFP = true;
  // variable sets
  if (op == E_VAR) e->vars = std::make_shared<std::vector<uint32_t>>(1, (uint32_t)cv);
  else {
    for (int i = 0; i < 3; i++) if (e->k[i] && e->k[i]->vars) {
      if (!e->vars) e->vars = e->k[i]->vars;
      else if (e->vars != e->k[i]->vars) {
        auto &x = *e->vars, &y = *e->k[i]->vars;
        if (std::includes(x.begin(), x.end(), y.begin(), y.end())) continue;
        if (std::includes(y.begin(), y.end(), x.begin(), x.end())) { e->vars = e->k[i]->vars; continue; }
        auto n = std::make_shared<std::vector<uint32_t>>();
        std::set_union(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(*n)); e->vars = n;
      } }
  }
  computeRange(e); e->chain = false; if (e->hasFP && w == 64) markChain(e);
  g_all.push_back(e); g_tab.emplace(k, e);
  if (e->lo == e->hi && op != E_CONST) { // provably constant
    ExprP ce = mkConst(e->lo, w); g_tab[k] = ce; return ce; }
  return e;
}
ExprP mkConst(uint64_t v, unsigned w) { return intern(E_CONST, w, nullptr, nullptr, nullptr, 0, v & maskw(w)); }
ExprP mkVar(const std::string &name, unsigned w) {
  uint32_t i = g_vars.size(); g_vars.push_back({name, w});
  return intern(E_VAR, w, nullptr, nullptr, nullptr, 0, i);
}
bool foldBin(EOp op, unsigned w, uint64_t a, uint64_t b, uint64_t &o) {
  uint64_t M = maskw(w); a &= M; b &= M;
  switch (op) {
  case E_ADD: o = a + b; break; case E_SUB: o = a - b; break; case E_MUL: o = a * b; break;
  case E_UDIV: o = b ? a / b : M; break;
  case E_UREM: o = b ? a % b : a; break;
  case E_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w); if (y == 0) o = x < 0 ? 1 : M; else if (y == -1) o = 0 - (uint64_t)x; else o = (uint64_t)(x / y); break; }
  case E_SREM: { int64_t x = sextw(a, w), y = sextw(b, w); if (y == 0) o = a; else if (y == -1) o = 0; else o = (uint64_t)(x % y); break; }
  case E_AND: o = a & b; break; case E_OR: o = a | b; break; case E_XOR: o = a ^ b; break;
  case E_SHL: o = b >= w ? 0 : a << b; break;
  case E_LSHR: o = b >= w ? 0 : a >> b; break;
  case E_ASHR: { int64_t x = sextw(a, w); o = (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : x >> b); break; }
  case E_EQ: o = a == b; return true; case E_ULT: o = a < b; return true; case E_ULE: o = a <= b; return true;
  case E_SLT: o = sextw(a, w) < sextw(b, w); return true; case E_SLE: o = sextw(a, w) <= sextw(b, w); return true;
  default: return false;
  }
  o &= M; return true;
}
static double bd(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t db(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static float bf(uint64_t v) { uint32_t u = (uint32_t)v; float d; memcpy(&d, &u, 4); return d; }
static uint64_t fb(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
template <class F> static F rnd(F x, uint32_t aux) { switch (aux) { case 0: return std::floor(x); case 1: return std::ceil(x); case 2: return std::trunc(x); case 3: return std::round(x); default: return std::rint(x); } }
bool foldFP(EOp op, unsigned w, unsigned aw, uint32_t aux, uint64_t a, uint64_t b, uint64_t &o) {
  if (op == E_SITOF || op == E_UITOF) {
    if (op == E_SITOF) o = w == 64 ? db((double)sextw(a, aw)) : fb((float)sextw(a, aw));
    else o = w == 64 ? db((double)(a & maskw(aw))) : fb((float)(a & maskw(aw)));
    return true; }
  if (aw == 64) { double x = bd(a), y = bd(b);
    switch (op) {
    case E_FADD: o = db(x + y); return true; case E_FSUB: o = db(x - y); return true;
    case E_FMUL: o = db(x * y); return true; case E_FDIV: o = db(x / y); return true;
    case E_FEQ: o = x == y; return true; case E_FLT: o = x < y; return true; case E_FLE: o = x <= y; return true;
    case E_FNAN: o = std::isnan(x); return true;
    case E_FRND: o = db(rnd(x, aux)); return true; case E_FSQRT: o = db(std::sqrt(x)); return true;
    case E_FTRUNCP: o = fb((float)x); return true;
    case E_FTOSI: { double t = std::trunc(x); if (!(t >= -ldexp(1, w - 1) && t < ldexp(1, w - 1))) o = 1ull << (w - 1); else o = (uint64_t)(int64_t)t & maskw(w); return true; }
    case E_FTOUI: { double t = std::trunc(x); if (!(t >= 0 && t < ldexp(1, w))) o = 0; else o = (uint64_t)t & maskw(w); return true; }
    default: return false; } }
  else { float x = bf(a), y = bf(b);
    switch (op) {
    case E_FADD: o = fb(x + y); return true; case E_FSUB: o = fb(x - y); return true;
    case E_FMUL: o = fb(x * y); return true; case E_FDIV: o = fb(x / y); return true;
    case E_FEQ: o = x == y; return true; case E_FLT: o = x < y; return true; case E_FLE: o = x <= y; return true;
    case E_FNAN: o = std::isnan(x); return true;
    case E_FRND: o = fb(rnd(x, aux)); return true; case E_FSQRT: o = fb(std::sqrt(x)); return true;
    case E_FEXT: o = db((double)x); return true;
    case E_FTOSI: { float t = std::trunc(x); if (!(t >= -ldexp(1, w - 1) && t < ldexp(1, w - 1))) o = 1ull << (w - 1); else o = (uint64_t)(int64_t)t & maskw(w); return true; }
    case E_FTOUI: { float t = std::trunc(x); if (!(t >= 0 && t < ldexp(1, w))) o = 0; else o = (uint64_t)t & maskw(w); return true; }
    default: return false; } }
}
static bool isC(ExprP e) { return e->op == E_CONST; }
static bool finiteC(ExprP e) { return isC(e) && (e->c & 0x7ff0000000000000ull) != 0x7ff0000000000000ull; }
static bool leafBits(ExprP e) { return e->w == 64 && e->vars && !e->hasFP && (e->hi < 0x7ff0000000000000ull || (e->lo >= 0x8000000000000000ull && e->hi < 0xfff0000000000000ull)); }
static void markChain(Expr *e) {
  ExprP a = e->k[0], b = e->k[1], x = nullptr; uint64_t xl, xh;
  if (e->op == E_SITOF) { if (a->hasFP || !a->vars || a->hi > maskw(a->w) >> 1) return; xl = a->lo; xh = a->hi; }
  else if (e->op == E_UITOF) { if (a->hasFP || !a->vars) return; xl = a->lo; xh = a->hi; }
  else { switch (e->op) {
    case E_FADD: case E_FSUB: if (finiteC(b)) x = a; else if (finiteC(a)) x = b; break;
    case E_FMUL: if (finiteC(b) && bd(b->c) != 0) x = a; else if (finiteC(a) && bd(a->c) != 0) x = b; break;
    case E_FDIV: if (finiteC(b) && bd(b->c) != 0) x = a; break;
    case E_FRND: x = a; break;
    default: break; }
    if (!x || x->w != 64) return; if (x->hasFP ? !x->chain : !leafBits(x)) return;
    xl = x->chain ? x->cl : x->lo; xh = x->chain ? x->ch : x->hi; }
  auto val = [&](uint64_t v) { uint64_t o = 0; if (!x || e->op == E_FRND) foldFP(e->op, 64, a->w, e->aux, v, 0, o); else if (x == a) foldFP(e->op, 64, 64, 0, v, b->c, o); else foldFP(e->op, 64, 64, 0, a->c, v, o); return o; };
  e->cl = val(xl); e->ch = val(xh); e->chain = true;
  if (e->cl == e->ch) e->lo = e->hi = e->cl; }
static bool commut(EOp op) { return op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ; }
ExprP mkNot(ExprP a) { return mkBin(E_XOR, a, mkConst(1, 1)); }

// linear combinations: terms with the same base are merged when that makes the sum shorter
struct Lin { ExprP t[8]; uint64_t c[8]; int n; uint64_t k; int seen; };
static bool linAdd(Lin &L, ExprP e, uint64_t c, int depth) {
  if (isC(e)) { L.k += e->c * c; return true; }
  if (depth < 6) {
    if (e->op == E_ADD) return linAdd(L, e->k[0], c, depth + 1) && linAdd(L, e->k[1], c, depth + 1);
    if (e->op == E_SUB) return linAdd(L, e->k[0], c, depth + 1) && linAdd(L, e->k[1], 0 - c, depth + 1);
    if (e->op == E_MUL && isC(e->k[1])) return linAdd(L, e->k[0], c * e->k[1]->c, depth + 1);
    if (e->op == E_SHL && isC(e->k[1]) && e->k[1]->c < e->w) return linAdd(L, e->k[0], c << e->k[1]->c, depth + 1); }
  L.seen++; uint64_t M = maskw(e->w);
  for (int i = 0; i < L.n; i++) if (L.t[i] == e) { L.c[i] = (L.c[i] + c) & M; return true; }
  if (L.n == 8) return false; L.t[L.n] = e; L.c[L.n++] = c & M; return true; }
static bool linear(EOp op, ExprP a, ExprP b, ExprP &out) {
  // x - (x/c)*c
  { ExprP x = a, y = b; bool neg = op == E_SUB; for (int s = 0; s < 2; s++) { if (y->op == E_MUL && isC(y->k[1]) && (y->k[0]->op == E_UDIV || y->k[0]->op == E_SDIV) && isC(y->k[0]->k[1]) && y->k[0]->k[0] == x && y->k[1]->c == (neg ? y->k[0]->k[1]->c : (0 - y->k[0]->k[1]->c) & maskw(a->w))) { out = mkBin(y->k[0]->op == E_UDIV ? E_UREM : E_SREM, x, y->k[0]->k[1]); return true; } if (neg) break; std::swap(x, y); } }
  if (a->w < 8 || isC(b) || !a->vars || !b->vars) return false;
  auto lin = [](ExprP e) { return e->op == E_ADD || e->op == E_SUB || (e->op == E_MUL && isC(e->k[1])) || e->op == E_SHL; };
  if (!lin(a) && !lin(b)) return false;
  Lin L; L.n = L.seen = 0; L.k = 0; if (!linAdd(L, a, 1, 0) || !linAdd(L, b, op == E_SUB ? ~0ull : 1, 0)) return false;
  int left = 0; for (int i = 0; i < L.n; i++) left += L.c[i] != 0; if (left == L.seen) return false;
  unsigned w = a->w; ExprP r = nullptr; for (int i = 0; i < L.n; i++) if (L.c[i]) { ExprP t = mkBin(E_MUL, L.t[i], mkConst(L.c[i], w)); r = r ? mkBin(E_ADD, r, t) : t; }
  ExprP k = mkConst(L.k, w); out = r ? mkBin(E_ADD, r, k) : k; return true; }

// c + k*x without overflow (x, k, c); anything else is 0 + 1*e
struct Aff { ExprP x; uint64_t k, c; };
static Aff affine(ExprP e) { Aff r{e, 1, 0}; if (isC(e)) { r.x = nullptr; r.k = 0; r.c = e->c; return r; } uint64_t M = maskw(e->w);
  if (e->op == E_ADD && isC(e->k[1]) && e->k[0]->hi <= M - e->k[1]->c) { r.c = e->k[1]->c; e = r.x = e->k[0]; }
  if (e->op == E_MUL && isC(e->k[1]) && e->k[1]->c && (__uint128_t)e->k[0]->hi * e->k[1]->c <= M) { r.k = e->k[1]->c; r.x = e->k[0]; }
  return r; }
// a = k*x + r without overflow, 0 <= r < k or r arbitrary; x is the first multiplied term found
struct Split { ExprP x, r; uint64_t k; };
static bool splitTerms(ExprP e, Split &s, int depth) { uint64_t M = maskw(e->w);
  if (e->op == E_ADD && depth < 6) { if (M - e->k[0]->hi < e->k[1]->hi) { s.r = s.r ? mkBin(E_ADD, s.r, e) : e; return true; } return splitTerms(e->k[0], s, depth + 1) && splitTerms(e->k[1], s, depth + 1); }
  if (e->op == E_MUL && isC(e->k[1]) && e->k[1]->c > 1 && (__uint128_t)e->k[0]->hi * e->k[1]->c <= M && (!s.x || e->k[1]->c > s.k)) { if (s.x) { ExprP o = mkBin(E_MUL, s.x, mkConst(s.k, e->w)); s.r = s.r ? mkBin(E_ADD, s.r, o) : o; } s.x = e->k[0]; s.k = e->k[1]->c; return true; }
  s.r = s.r ? mkBin(E_ADD, s.r, e) : e; return true; }
static bool split(ExprP a, Split &s) { if (a->op != E_ADD && a->op != E_MUL) return false; s.x = s.r = nullptr; s.k = 0; if (!splitTerms(a, s, 0) || !s.x) return false; if (!s.r) s.r = mkConst(0, a->w); return true; }
// division of such a sum by a constant
static bool divSplit(ExprP a, uint64_t m, bool rem, ExprP &out) { Split s; if (!split(a, s)) return false; unsigned w = a->w;
  if (m % s.k == 0 && s.r->hi < s.k) { ExprP c = mkConst(m / s.k, w); out = rem ? mkBin(E_ADD, mkBin(E_MUL, mkBin(E_UREM, s.x, c), mkConst(s.k, w)), s.r) : mkBin(E_UDIV, s.x, c); return true; }
  if (s.k % m == 0) { ExprP c = mkConst(m, w); out = rem ? mkBin(E_UREM, s.r, c) : mkBin(E_ADD, mkBin(E_MUL, s.x, mkConst(s.k / m, w)), mkBin(E_UDIV, s.r, c)); return true; }
  return false; }
bool affineOf(ExprP e, ExprP &x, uint64_t &k, uint64_t &c) { if (e->op == E_ADD && isC(e->k[1]) && e->k[0]->op == E_SHL && e->k[0]->lo <= e->k[0]->hi && e->k[0]->hi <= maskw(e->w) - e->k[1]->c) { c = e->k[1]->c; e = e->k[0]; } else c = 0;
  if (e->op == E_SHL && isC(e->k[1]) && e->k[1]->c < 8 && e->k[0]->hi <= maskw(e->w) >> e->k[1]->c) { x = e->k[0]; k = 1ull << e->k[1]->c; return true; }
  if (c) return false; extern bool affineOf1(ExprP, ExprP &, uint64_t &, uint64_t &); return affineOf1(e, x, k, c); }
bool affineOf1(ExprP e, ExprP &x, uint64_t &k, uint64_t &c) { Aff f = affine(e); if (!f.x) return false; x = f.x; k = f.k; c = f.c; return true; }
// comparison of affine terms, reduced to one of their bases; op is E_ULT, E_ULE or E_EQ
static bool affineCmp(EOp op, ExprP a, ExprP b, ExprP &out) {
  if (a->op != E_ADD && a->op != E_MUL && b->op != E_ADD && b->op != E_MUL) return false;
  Aff p = affine(a), q = affine(b); unsigned w = a->w; bool plain = p.k <= 1 && !p.c && q.k <= 1 && !q.c; if (plain && (p.x && q.x)) return false;
  if (p.x && q.x) { uint64_t m = std::min(p.c, q.c); p.c -= m; q.c -= m; if (p.k != q.k || p.c % p.k || q.c % p.k) { if (!m) return false; }
    else { p.c /= p.k; q.c /= q.k; p.k = q.k = 1; }
    auto mk = [&](Aff f) { ExprP x = f.x; if (f.k != 1) x = mkBin(E_MUL, x, mkConst(f.k, w)); return f.c ? mkBin(E_ADD, x, mkConst(f.c, w)) : x; };
    ExprP x = mk(p), y = mk(q); if (x == a && y == b) return false; out = mkBin(op, x, y); return true; }
  { Split s; uint64_t K = p.x ? q.c : p.c; ExprP e = p.x ? a : b; if (split(e, s) && s.r->hi < s.k && s.r->hi != s.r->lo) {   // k*x + r with r < k
      if (op == E_EQ) { out = mkBin(E_AND, mkBin(E_EQ, s.x, mkConst(K / s.k, w)), mkBin(E_EQ, s.r, mkConst(K % s.k, w))); return true; }
      if (p.x && op == E_ULT && K % s.k == 0) { out = mkBin(E_ULT, s.x, mkConst(K / s.k, w)); return true; }
      if (p.x && op == E_ULE && K < maskw(w) && (K + 1) % s.k == 0) { out = mkBin(E_ULT, s.x, mkConst((K + 1) / s.k, w)); return true; }
      if (!p.x && op == E_ULT && K < maskw(w) && (K + 1) % s.k == 0) { out = mkBin(E_ULE, mkConst((K + 1) / s.k, w), s.x); return true; }
      if (!p.x && op == E_ULE && K % s.k == 0) { out = mkBin(E_ULE, mkConst(K / s.k, w), s.x); return true; } } }
  if (p.x) { // k*x + c op K
    uint64_t K = q.c; if (p.k == 1 && !p.c) return false; 
    if (op == E_EQ) { if (K < p.c || (K - p.c) % p.k) { out = mkConst(0, 1); return true; } out = mkBin(E_EQ, p.x, mkConst((K - p.c) / p.k, w)); return true; }
    if (op == E_ULT) { if (K <= p.c) { out = mkConst(0, 1); return true; } out = mkBin(E_ULE, p.x, mkConst((K - p.c - 1) / p.k, w)); return true; }
    if (K < p.c) { out = mkConst(0, 1); return true; } out = mkBin(E_ULE, p.x, mkConst((K - p.c) / p.k, w)); return true; }
  if (q.x) { uint64_t K = p.c; if (q.k == 1 && !q.c) return false;
    if (op == E_EQ) return affineCmp(op, b, a, out);
    if (op == E_ULE) { if (K == 0) { out = mkConst(1, 1); return true; } K--; }   // K < k*x + c
    if (K < q.c) { out = mkConst(1, 1); return true; } out = mkBin(E_ULT, mkConst((K - q.c) / q.k, w), q.x); return true; }
  return false; }

// ---- floating point steps applied to one bit pattern or integer: monotone, so comparisons with a constant are thresholds on it
struct Chain { ExprP leaf; std::vector<ExprP> ops; };   // ops from the outermost inwards
static bool chainOf(ExprP e, Chain &c) {
  for (;;) {
    if (!e->hasFP) { if (!leafBits(e)) return false; c.leaf = e; return true; }
    if (!e->chain) return false;
    c.ops.push_back(e); if (e->op == E_SITOF || e->op == E_UITOF) { c.leaf = e->k[0]; return true; }
    e = isC(e->k[0]) ? e->k[1] : e->k[0]; } }
static uint64_t chainVal(const Chain &c, uint64_t x) {
  for (size_t i = c.ops.size(); i-- > 0;) { ExprP e = c.ops[i]; uint64_t o = 0; 
    if (e->op == E_SITOF || e->op == E_UITOF || e->op == E_FRND) foldFP(e->op, 64, e->k[0]->w, e->aux, x, 0, o);
    else if (isC(e->k[1])) foldFP(e->op, 64, 64, 0, x, e->k[1]->c, o); else foldFP(e->op, 64, 64, 0, e->k[0]->c, x, o);
    x = o; }
  return x; }
template <class P> static ExprP threshold(const Chain &c, P pred) {
  uint64_t lo = c.leaf->lo, hi = c.leaf->hi; bool pl = pred(c.ops.empty() ? lo : c.ops[0]->cl), ph = pred(c.ops.empty() ? hi : c.ops[0]->ch); if (pl == ph) return mkConst(pl, 1);
  while (hi - lo > 1) { uint64_t m = lo + (hi - lo) / 2; if (pred(chainVal(c, m)) == pl) lo = m; else hi = m; }
  ExprP t = mkConst(hi, c.leaf->w); return pl ? mkBin(E_ULT, c.leaf, t) : mkBin(E_ULE, t, c.leaf); }
static bool chainCmp(EOp op, ExprP a, ExprP b, ExprP &out) {
  bool left = isC(b); if (a->w != 64 || left == isC(a)) return false; ExprP k = left ? b : a; Chain c; if (std::isnan(bd(k->c)) || !chainOf(left ? a : b, c)) return false;
  if (op == E_FEQ) { out = mkBin(E_AND, mkBin(E_FLE, a, b), mkBin(E_FLE, b, a)); return true; }
  double kv = bd(k->c); out = threshold(c, [&](uint64_t x) { double v = bd(x), p = left ? v : kv, q = left ? kv : v; return op == E_FLT ? p < q : p <= q; }); return true; }
bool isChain(ExprP e) { return e->op != E_CONST && e->w == 64 && (e->hasFP ? e->chain : leafBits(e)); }
ExprP chainSign(ExprP e) { Chain c; if (!chainOf(e, c)) abort(); return threshold(c, [](uint64_t x) { return (x >> 63) != 0; }); }

ExprP mkBin(EOp op, ExprP a, ExprP b) {
  unsigned w = a->w; unsigned rw = (op >= E_EQ && op <= E_SLE) || (op >= E_FEQ && op <= E_FLE) ? 1 : w;
  if (op >= E_FADD) {
    uint64_t o; if (isC(a) && isC(b) && foldFP(op, rw, w, 0, a->c, b->c, o)) return mkConst(o, rw);
    if (op >= E_FEQ && op <= E_FLE && a == b) return op == E_FLT ? mkConst(0, 1) : mkNot(mkFUn(E_FNAN, a, 1, 0));   // x == x tells that x is a number
    if (op >= E_FEQ && op <= E_FLE) { ExprP r; if (chainCmp(op, a, b, r)) return r; }
    return intern(op, rw, a, b);
  }
  uint64_t o;
  if (isC(a) && isC(b)) { foldBin(op, w, a->c, b->c, o); return mkConst(o, rw); }
  if (commut(op)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }   // constant on the right
  uint64_t M = maskw(w);
  // a comparison with a choice between values, when one of the two comparisons is decided
  if (op >= E_EQ && op <= E_SLE && w > 1) for (int s = 0; s < 2; s++) { ExprP p = s ? b : a, q = s ? a : b; if (p->op == E_ITE && q->op != E_ITE) {
      ExprP x = s ? mkBin(op, q, p->k[1]) : mkBin(op, p->k[1], q), y = s ? mkBin(op, q, p->k[2]) : mkBin(op, p->k[2], q); if (isC(x) || isC(y)) return mkIte(p->k[0], x, y); } }
  switch (op) {
  case E_ADD:
    if (isC(b)) { if (b->c == 0) return a;
      if (a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
      if (a->op == E_ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkBin(E_ADD, a->k[1], b), mkBin(E_ADD, a->k[2], b)); }
    // (x/c)*c + x%c
    for (int s = 0; s < 2; s++) { ExprP p = s ? b : a, q = s ? a : b;
      if (q->op == E_UREM && p->op == E_MUL && p->k[1] == q->k[1] && p->k[0]->op == E_UDIV && p->k[0]->k[0] == q->k[0] && p->k[0]->k[1] == q->k[1]) return q->k[0];
      if (q->op == E_SREM && p->op == E_MUL && p->k[1] == q->k[1] && p->k[0]->op == E_SDIV && p->k[0]->k[0] == q->k[0] && p->k[0]->k[1] == q->k[1]) return q->k[0]; }
    { ExprP r; if (linear(op, a, b, r)) return r; }
    break;
  case E_SUB:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mkBin(E_ADD, a, mkConst(0 - b->c, w));
    { ExprP r; if (linear(op, a, b, r)) return r; }
    break;
  case E_MUL:
    if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; }
    break;
  case E_UDIV: if (isC(b)) { if (b->c == 1) return a; if (b->c && a->hi < b->c) return mkConst(0, w);
      if (a->op == E_UREM && isC(a->k[1]) && b->c && a->k[1]->c && a->k[1]->c % b->c == 0) return mkBin(E_UREM, mkBin(E_UDIV, a->k[0], b), mkConst(a->k[1]->c / b->c, w));
      if (b->c) { ExprP r; if (divSplit(a, b->c, false, r)) return r; }
      if (a->op == E_UDIV && isC(a->k[1]) && b->c && a->k[1]->c && (__uint128_t)a->k[1]->c * b->c <= M) return mkBin(E_UDIV, a->k[0], mkConst(a->k[1]->c * b->c, w));
      if (a->op == E_ZEXT && b->c <= maskw(a->k[0]->w)) return mkZext(mkBin(E_UDIV, a->k[0], mkConst(b->c, a->k[0]->w)), w); }
    break;
  case E_SDIV: if (isC(b) && b->c == 1) return a;
    if (isC(b) && a->hi <= M >> 1 && b->c <= M >> 1) return mkBin(E_UDIV, a, b); break;
  case E_UREM: if (isC(b) && b->c) { if (b->c == 1) return mkConst(0, w); if (a->hi < b->c) return a;
      if (a->op == E_UREM && isC(a->k[1]) && a->k[1]->c && a->k[1]->c % b->c == 0) return mkBin(E_UREM, a->k[0], b);
      { ExprP r; if (divSplit(a, b->c, true, r)) return r; }
      if (a->op == E_ZEXT && b->c <= maskw(a->k[0]->w)) return mkZext(mkBin(E_UREM, a->k[0], mkConst(b->c, a->k[0]->w)), w); } break;
  case E_SREM: if (isC(b) && a->hi <= M >> 1 && b->c <= M >> 1) return mkBin(E_UREM, a, b); break;
  case E_AND:
    if (a == b) return a;
    if (isC(b)) { if (b->c == 0) return b; if (b->c == M) return a;
      { uint64_t m = a->hi; for (int s = 1; s < 64; s <<= 1) m |= m >> s; if (!(m & b->c)) return mkConst(0, w); }
      if ((b->c & (b->c + 1)) == 0) { if (a->hi <= b->c) return a; unsigned n = __builtin_popcountll(b->c); if (n < w && a->lo >> n == a->hi >> n) return mkBin(E_ADD, a, mkConst(0 - (a->lo >> n << n), w)); return mkZext(mkExtract(a, 0, n), w); }
      if (a->op == E_AND && isC(a->k[1])) return mkBin(E_AND, a->k[0], mkConst(a->k[1]->c & b->c, w)); }
    if (w == 1) { if (a == mkNot(b)) return mkConst(0, 1); }
    break;
  case E_OR:
    if (a == b) return a;
    if (isC(b)) { if (b->c == 0) return a; if (b->c == M) return b; }
    if (w == 1) { if (a == mkNot(b)) return mkConst(1, 1); }
    // or of shifted disjoint parts -> concat
    for (int s = 0; s < 2; s++) { ExprP p = s ? b : a, q = s ? a : b;
      if (p->op == E_SHL && isC(p->k[1]) && p->k[1]->c < w && p->k[1]->c > 0 && q->hi < (1ull << p->k[1]->c)) {
        unsigned n = p->k[1]->c; return mkConcat(mkExtract(p->k[0], 0, w - n), mkExtract(q, 0, n)); } }
    if (isC(b) && w > 1 && (a->op == E_UREM || a->op == E_UDIV || (a->op == E_EXTRACT && a->aux == 0))) { uint64_t m = a->hi; for (int s = 1; s < 64; s <<= 1) m |= m >> s; if (!(m & b->c)) return mkBin(E_ADD, a, b); }   // digit | '0'
    break;
  case E_XOR:
    if (a == b) return mkConst(0, w);
    if (isC(b)) { if (b->c == 0) return a;
      if (w > 1 && b->c == M - (M >> 1) && (a->hi < b->c || a->lo >= b->c)) return mkBin(E_ADD, a, b);
      if (a->op == E_XOR && isC(a->k[1])) return mkBin(E_XOR, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
      if (w == 1 && b->c == 1) { // negation of comparisons
        if (a->op == E_ULT) return mkBin(E_ULE, a->k[1], a->k[0]);
        if (a->op == E_ULE) return mkBin(E_ULT, a->k[1], a->k[0]);
        if (a->op == E_SLT) return mkBin(E_SLE, a->k[1], a->k[0]);
        if (a->op == E_SLE) return mkBin(E_SLT, a->k[1], a->k[0]);
      } }
    break;
  case E_SHL: if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w);
      } break;
  case E_LSHR: if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w);
      return mkZext(mkExtract(a, b->c, w - b->c), w); } break;
  case E_ASHR: if (isC(b)) { if (b->c == 0) return a; if (a->hi <= M >> 1) return mkBin(E_LSHR, a, b); } break;
  case E_EQ:
    if (a == b) return mkConst(1, 1);
    if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1);
    if (w == 1) { if (isC(b)) return b->c ? a : mkNot(a); }
    if (isC(b)) {
      if (a->op == E_ZEXT) { if (b->c > maskw(a->k[0]->w)) return mkConst(0, 1); return mkBin(E_EQ, a->k[0], mkConst(b->c, a->k[0]->w)); }
      if (a->op == E_SEXT) { ExprP n = mkConst(b->c, a->k[0]->w); if ((uint64_t)sextw(n->c, n->w) != (uint64_t)sextw(b->c, w)) return mkConst(0, 1); return mkBin(E_EQ, a->k[0], n); }
      if (a->op == E_ADD && isC(a->k[1])) return mkBin(E_EQ, a->k[0], mkConst(b->c - a->k[1]->c, w));
      if (a->op == E_XOR && isC(a->k[1])) return mkBin(E_EQ, a->k[0], mkConst(b->c ^ a->k[1]->c, w));
      if (a->op == E_CONCAT) return mkBin(E_AND, mkBin(E_EQ, a->k[0], mkConst(b->c >> a->k[1]->w, a->k[0]->w)), mkBin(E_EQ, a->k[1], mkConst(b->c, a->k[1]->w)));
      if (a->op == E_ITE && (isC(a->k[1]) || isC(a->k[2]))) {
        ExprP x = mkBin(E_EQ, a->k[1], b), y = mkBin(E_EQ, a->k[2], b); return mkIte(a->k[0], x, y); }
    }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_EQ, a->k[0], b->k[0]);
    if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_EQ, a->k[0], b->k[0]);
    if (a->op == E_ADD && b->op == E_ADD && a->k[1] == b->k[1]) return mkBin(E_EQ, a->k[0], b->k[0]);
    { ExprP r; if (affineCmp(op, a, b, r)) return r; }
    break;
  case E_ULT:
    if (a == b) return mkConst(0, 1);
    if (a->hi < b->lo) return mkConst(1, 1);
    if (a->lo >= b->hi) return mkConst(0, 1);
    if (a->op == E_ZEXT && isC(b)) { if (b->c > maskw(a->k[0]->w)) return mkConst(1, 1); return mkBin(E_ULT, a->k[0], mkConst(b->c, a->k[0]->w)); }
    if (b->op == E_ZEXT && isC(a)) { if (a->c >= maskw(b->k[0]->w)) return mkConst(0, 1); return mkBin(E_ULT, mkConst(a->c, b->k[0]->w), b->k[0]); }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_ULT, a->k[0], b->k[0]);
    if (isC(b) && b->c == 1) return mkBin(E_EQ, a, mkConst(0, w));
    { ExprP r; if (affineCmp(op, a, b, r)) return r; }
    if (a->op == E_ITE && isC(b) && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    break;
  case E_ULE:
    if (a == b) return mkConst(1, 1);
    if (a->hi <= b->lo) return mkConst(1, 1);
    if (a->lo > b->hi) return mkConst(0, 1);
    { ExprP r; if (affineCmp(op, a, b, r)) return r; }
    if (isC(b) && b->c < M) return mkBin(E_ULT, a, mkConst(b->c + 1, w));
    if (isC(a) && a->c > 0) return mkBin(E_ULT, mkConst(a->c - 1, w), b);
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_ULE, a->k[0], b->k[0]);
    break;
  case E_SLT: case E_SLE:
    if (a == b) return mkConst(op == E_SLE, 1);
    if (a->hi <= M >> 1 && b->hi <= M >> 1) return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b);
    if (a->lo > M >> 1 && b->lo > M >> 1) return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b);
    if (a->lo > M >> 1 && b->hi <= M >> 1) return mkConst(1, 1);
    if (b->lo > M >> 1 && a->hi <= M >> 1) return mkConst(0, 1);
    if (a->op == E_SEXT && isC(b)) { unsigned n = a->k[0]->w; int64_t v = sextw(b->c, w), mn = -(1ll << (n - 1)), mx = (1ll << (n - 1)) - 1;
      if (v > mx) return mkConst(1, 1); if (v < mn) return mkConst(0, 1); return mkBin(op, a->k[0], mkConst(b->c, n)); }
    if (b->op == E_SEXT && isC(a)) { unsigned n = b->k[0]->w; int64_t v = sextw(a->c, w), mn = -(1ll << (n - 1)), mx = (1ll << (n - 1)) - 1;
      if (v > mx) return mkConst(0, 1); if (v < mn) return mkConst(1, 1); return mkBin(op, mkConst(a->c, n), b->k[0]); }
    if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
    if (a->op == E_ITE && isC(b) && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    break;
  default: break;
  }
  return intern(op, rw, a, b);
}
ExprP mkIte(ExprP c, ExprP a, ExprP b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkBin(E_OR, c, b) : mkBin(E_AND, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(E_OR, mkNot(c), a) : mkBin(E_AND, c, a);
  }
  return intern(E_ITE, a->w, c, a, b);
}
ExprP mkZext(ExprP a, unsigned w) {
  if (a->w == w) return a; if (isC(a)) return mkConst(a->c, w);
  if (a->op == E_ZEXT) return mkZext(a->k[0], w);
  if (a->op == E_EXTRACT && a->aux == 0 && a->k[0]->w == w && a->k[0]->hi <= maskw(a->w)) return a->k[0];
  return intern(E_ZEXT, w, a);
}
ExprP mkSext(ExprP a, unsigned w) {
  if (a->w == w) return a; if (isC(a)) return mkConst((uint64_t)sextw(a->c, a->w), w);
  if (a->hi <= maskw(a->w) >> 1) return mkZext(a, w);
  if (a->op == E_SEXT) return mkSext(a->k[0], w);
  return intern(E_SEXT, w, a);
}
ExprP mkExtract(ExprP a, unsigned lo, unsigned w) {
  if (lo == 0 && a->w == w) return a;
  if (isC(a)) return mkConst(a->c >> lo, w);
  if (a->op == E_EXTRACT) return mkExtract(a->k[0], a->aux + lo, w);
  if (a->op == E_CONCAT) { unsigned lw = a->k[1]->w; if (lo >= lw) return mkExtract(a->k[0], lo - lw, w); if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo)); }
  if (a->op == E_ZEXT) { unsigned iw = a->k[0]->w; if (lo >= iw) return mkConst(0, w); if (lo + w <= iw) return mkExtract(a->k[0], lo, w); return mkZext(mkExtract(a->k[0], lo, iw - lo), w); }
  if (a->op == E_SEXT && lo + w <= a->k[0]->w) return mkExtract(a->k[0], lo, w);
  if (a->op == E_SEXT && lo == 0 && w > a->k[0]->w) return mkSext(a->k[0], w);
  if (a->op == E_ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
  if (lo == 0 && w > 1 && a->hi > maskw(w) && (a->op == E_ADD || a->op == E_SUB || a->op == E_MUL || a->op == E_AND || a->op == E_OR || a->op == E_XOR) && (a->op != E_MUL))
    return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
  if (lo > 0 && (a->hi >> lo) == (a->lo >> lo)) return mkConst(a->lo >> lo, w);
  return intern(E_EXTRACT, w, a, nullptr, nullptr, lo);
}
ExprP mkConcat(ExprP h, ExprP l) {
  unsigned w = h->w + l->w;
  if (isC(h) && isC(l)) return mkConst((h->c << l->w) | l->c, w);
  if (isC(h) && h->c == 0) return mkZext(l, w);
  if (h->op == E_EXTRACT && l->op == E_EXTRACT && h->k[0] == l->k[0] && h->aux == l->aux + l->w) return mkExtract(h->k[0], l->aux, w);
  // extract high over zext/sext pieces: concat(extract(sext x..), x)
  if (h->op == E_EXTRACT && h->aux == l->w && mkExtract(h->k[0], 0, l->w) == l) return mkExtract(h->k[0], 0, w);
  if (l->op == E_CONCAT && h->op == E_EXTRACT && l->k[0]->op == E_EXTRACT && h->k[0] == l->k[0]->k[0] && h->aux == l->k[0]->aux + l->k[0]->w)
    return mkConcat(mkConcat(h, l->k[0]), l->k[1]);
  return intern(E_CONCAT, w, h, l);
}
ExprP mkFUn(EOp op, ExprP a, unsigned w, uint32_t aux) {
  if (op == E_FNAN && isChain(a)) return mkConst(0, 1);
  uint64_t o; if (isC(a) && foldFP(op, w, a->w, aux, a->c, 0, o)) return mkConst(o, w);
  return intern(op, w, a, nullptr, nullptr, aux);
}
std::string str(ExprP e, int d) {
  static const char *n[] = {"c","v","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","zx","sx","ext","cat","f+","f-","f*","f/","f==","f<","f<=","fnan","ftosi","ftoui","sitof","uitof","fext","ftrunc","frnd","fsqrt"};
  if (e->op == E_CONST) return std::to_string(e->c) + ":" + std::to_string(e->w);
  if (e->op == E_VAR) return g_vars[e->c].name;
  if (d == 0) return "..";
  std::string r = std::string("(") + n[e->op]; if (e->op == E_EXTRACT) r += std::to_string(e->aux) + "w" + std::to_string(e->w);
  for (int i = 0; i < 3; i++) if (e->k[i]) r += " " + str(e->k[i], d - 1);
  return r + ")";
}
// ---------------------------------------------------------------- evaluation
static std::vector<uint64_t> ev_val; static std::vector<uint32_t> ev_gen; static uint32_t ev_g = 0;
static const Model *ev_m;
static uint64_t ev(ExprP e) {
  if (e->op == E_CONST) return e->c;
  if (e->op == E_VAR) return ev_m->get(e->c) & maskw(e->w);
  if (ev_gen[e->id] == ev_g) return ev_val[e->id];
  uint64_t r = 0;
  if (e->op == E_ITE) r = ev(e->k[0]) ? ev(e->k[1]) : ev(e->k[2]);
  else {
    uint64_t a = ev(e->k[0]), b = e->k[1] ? ev(e->k[1]) : 0;
    switch (e->op) {
    case E_ZEXT: r = a; break;
    case E_SEXT: r = (uint64_t)sextw(a, e->k[0]->w); break;
    case E_EXTRACT: r = a >> e->aux; break;
    case E_CONCAT: r = (a << e->k[1]->w) | b; break;
    default:
      if (e->op >= E_FADD) foldFP(e->op, e->w, e->k[0]->w, e->aux, a, b, r);
      else foldBin(e->op, e->k[0]->w, a, b, r);
    }
    r &= maskw(e->w);
  }
  ev_gen[e->id] = ev_g; ev_val[e->id] = r; return r;
}
uint64_t evalExpr(ExprP e, const Model &m) {
  if (e->op == E_CONST) return e->c;
  if (ev_val.size() < g_all.size()) { ev_val.resize(g_all.size() * 2 + 64); ev_gen.resize(g_all.size() * 2 + 64, 0); }
  ev_g++; ev_m = &m; return ev(e);
}
// ---------------------------------------------------------------- Z3
static Z3_context Z = nullptr; static Z3_solver ZS = nullptr;
static std::unordered_map<uint32_t, Z3_ast> zc;   // as bit-vector (bool exprs: as Bool in zb)
static std::unordered_map<uint32_t, Z3_ast> zb;
static std::vector<Z3_ast> zvars;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); }
static void zinit() {
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_set_error_handler(Z, zerr);
  ZS = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, ZS);
}
static Z3_ast keep(Z3_ast a) { return a; } // the context keeps every expression alive
static Z3_ast tb(ExprP e); static Z3_ast tv(ExprP e);
static Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(Z, w); }
static Z3_ast rne() { static Z3_ast r = keep(Z3_mk_fpa_rne(Z)); return r; }
static Z3_sort fs(unsigned w) { static Z3_sort d = (Z3_sort)keep(Z3_sort_to_ast(Z, Z3_mk_fpa_sort_double(Z))), s = (Z3_sort)keep(Z3_sort_to_ast(Z, Z3_mk_fpa_sort_single(Z))); return w == 64 ? d : s; }
static std::unordered_map<uint32_t, Z3_ast> zf;
static Z3_ast tf(ExprP e) { // as FP
  auto it = zf.find(e->id); if (it != zf.end()) return it->second;
  Z3_ast r;
  auto rm = [&](uint32_t a) { return a == 0 ? Z3_mk_fpa_rtn(Z) : a == 1 ? Z3_mk_fpa_rtp(Z) : a == 2 ? Z3_mk_fpa_rtz(Z) : a == 3 ? Z3_mk_fpa_rna(Z) : Z3_mk_fpa_rne(Z); };
  switch (e->op) {
  case E_FADD: r = Z3_mk_fpa_add(Z, rne(), tf(e->k[0]), tf(e->k[1])); break;
  case E_FSUB: r = Z3_mk_fpa_sub(Z, rne(), tf(e->k[0]), tf(e->k[1])); break;
  case E_FMUL: r = Z3_mk_fpa_mul(Z, rne(), tf(e->k[0]), tf(e->k[1])); break;
  case E_FDIV: r = Z3_mk_fpa_div(Z, rne(), tf(e->k[0]), tf(e->k[1])); break;
  case E_FSQRT: r = Z3_mk_fpa_sqrt(Z, rne(), tf(e->k[0])); break;
  case E_FRND: r = Z3_mk_fpa_round_to_integral(Z, rm(e->aux), tf(e->k[0])); break;
  case E_FEXT: case E_FTRUNCP: r = Z3_mk_fpa_to_fp_float(Z, rne(), tf(e->k[0]), fs(e->w)); break;
  case E_SITOF: r = Z3_mk_fpa_to_fp_signed(Z, rne(), tv(e->k[0]), fs(e->w)); break;
  case E_UITOF: r = Z3_mk_fpa_to_fp_unsigned(Z, rne(), tv(e->k[0]), fs(e->w)); break;
  case E_ITE: r = Z3_mk_ite(Z, tb(e->k[0]), tf(e->k[1]), tf(e->k[2])); break;
  default: r = Z3_mk_fpa_to_fp_bv(Z, tv(e), fs(e->w));
  }
  zf[e->id] = keep(r); return r;
}
static Z3_ast tb(ExprP e) { // as Bool
  auto it = zb.find(e->id); if (it != zb.end()) return it->second;
  Z3_ast r;
  Z3_ast two[2];
  switch (e->op) {
  case E_CONST: r = e->c ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
  case E_EQ: r = e->k[0]->w == 1 ? Z3_mk_iff(Z, tb(e->k[0]), tb(e->k[1])) : Z3_mk_eq(Z, tv(e->k[0]), tv(e->k[1])); break;
  case E_ULT: r = Z3_mk_bvult(Z, tv(e->k[0]), tv(e->k[1])); break;
  case E_ULE: r = Z3_mk_bvule(Z, tv(e->k[0]), tv(e->k[1])); break;
  case E_SLT: r = Z3_mk_bvslt(Z, tv(e->k[0]), tv(e->k[1])); break;
  case E_SLE: r = Z3_mk_bvsle(Z, tv(e->k[0]), tv(e->k[1])); break;
  case E_AND: two[0] = tb(e->k[0]); two[1] = tb(e->k[1]); r = Z3_mk_and(Z, 2, two); break;
  case E_OR: two[0] = tb(e->k[0]); two[1] = tb(e->k[1]); r = Z3_mk_or(Z, 2, two); break;
  case E_XOR: if (e->k[1]->op == E_CONST) r = e->k[1]->c ? Z3_mk_not(Z, tb(e->k[0])) : tb(e->k[0]); else r = Z3_mk_xor(Z, tb(e->k[0]), tb(e->k[1])); break;
  case E_ITE: r = Z3_mk_ite(Z, tb(e->k[0]), tb(e->k[1]), tb(e->k[2])); break;
  case E_FEQ: r = Z3_mk_fpa_eq(Z, tf(e->k[0]), tf(e->k[1])); break;
  case E_FLT: r = Z3_mk_fpa_lt(Z, tf(e->k[0]), tf(e->k[1])); break;
  case E_FLE: r = Z3_mk_fpa_leq(Z, tf(e->k[0]), tf(e->k[1])); break;
  case E_FNAN: r = Z3_mk_fpa_is_nan(Z, tf(e->k[0])); break;
  default: r = Z3_mk_eq(Z, tv(e), Z3_mk_unsigned_int64(Z, 1, bv(1)));
  }
  zb[e->id] = keep(r); return r;
}
static bool boolOp(ExprP e) { return e->w == 1 && (e->op == E_EQ || (e->op >= E_ULT && e->op <= E_SLE) || e->op == E_AND || e->op == E_OR || e->op == E_XOR || e->op == E_ITE || (e->op >= E_FEQ && e->op <= E_FNAN)); }
static Z3_ast tv(ExprP e) { // as bit-vector
  auto it = zc.find(e->id); if (it != zc.end()) return it->second;
  Z3_ast r;
  if (boolOp(e)) r = Z3_mk_ite(Z, tb(e), Z3_mk_unsigned_int64(Z, 1, bv(1)), Z3_mk_unsigned_int64(Z, 0, bv(1)));
  else switch (e->op) {
  case E_CONST: r = Z3_mk_unsigned_int64(Z, e->c, bv(e->w)); break;
  case E_VAR: { std::string n = "v" + std::to_string(e->c); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), bv(e->w));
    if (zvars.size() <= e->c) zvars.resize(e->c + 1, nullptr); zvars[e->c] = r; break; }
#define B2(OP, F) case OP: r = F(Z, tv(e->k[0]), tv(e->k[1])); break;
  B2(E_ADD, Z3_mk_bvadd) B2(E_SUB, Z3_mk_bvsub) B2(E_MUL, Z3_mk_bvmul) B2(E_UDIV, Z3_mk_bvudiv) B2(E_SDIV, Z3_mk_bvsdiv)
  B2(E_UREM, Z3_mk_bvurem) B2(E_SREM, Z3_mk_bvsrem) B2(E_AND, Z3_mk_bvand) B2(E_OR, Z3_mk_bvor) B2(E_XOR, Z3_mk_bvxor)
  B2(E_SHL, Z3_mk_bvshl) B2(E_LSHR, Z3_mk_bvlshr) B2(E_ASHR, Z3_mk_bvashr) B2(E_CONCAT, Z3_mk_concat)
  case E_ITE: r = Z3_mk_ite(Z, tb(e->k[0]), tv(e->k[1]), tv(e->k[2])); break;
  case E_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->k[0]->w, tv(e->k[0])); break;
  case E_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->k[0]->w, tv(e->k[0])); break;
  case E_EXTRACT: r = Z3_mk_extract(Z, e->aux + e->w - 1, e->aux, tv(e->k[0])); break;
  case E_FTOSI: r = Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), tf(e->k[0]), e->w); break;
  case E_FTOUI: r = Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), tf(e->k[0]), e->w); break;
  default: r = Z3_mk_fpa_to_ieee_bv(Z, tf(e)); break;
  }
  zc[e->id] = keep(r); return r;
}
struct CacheEnt { SatRes r; std::vector<std::pair<uint32_t, uint64_t>> m; };
struct VH { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = v.size(); for (auto x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> qcache;

static void dumpQuery(const std::vector<ExprP> &cs, SatRes r) {
  static int n = 0; if (n >= 40) return; 
  std::string f = g_dumpdir + "/q" + std::to_string(getpid()) + "_" + std::to_string(n++) + (r == R_SAT ? ".sat" : ".unsat") + ".smt2";
  std::vector<Z3_ast> as; for (auto c : cs) as.push_back(tb(c));
  FILE *o = fopen(f.c_str(), "w"); if (!o) return;
  const char *s = Z3_benchmark_to_smtlib_string(Z, "q", "QF_BV", r == R_SAT ? "sat" : "unsat", "", as.size() - 1, as.data(), as.back());
  fputs(s, o); fclose(o);
}

SatRes solve(const std::vector<ExprP> &pc, ExprP cond, const Model &base, Model &out) {
  g_sstats.queries++;
  if (cond->op == E_CONST) { if (!cond->c) return R_UNSAT; out = base; return R_SAT; }
  if (evalExpr(cond, base)) { out = base; return R_SAT; }   // base model already works
  if (!Z) zinit();
  // slice: constraints transitively sharing variables with cond
  std::vector<char> inv(g_vars.size(), 0); for (auto v : *cond->vars) inv[v] = 1;
  std::vector<char> used(pc.size(), 0); std::vector<ExprP> cs; bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i] && pc[i]->vars) {
      bool hit = false; for (auto v : *pc[i]->vars) if (inv[v]) { hit = true; break; }
      if (hit) { used[i] = 1; cs.push_back(pc[i]); for (auto v : *pc[i]->vars) if (!inv[v]) { inv[v] = 1; ch = true; } } } }
  cs.push_back(cond);
  std::vector<uint32_t> key; for (auto c : cs) key.push_back(c->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = qcache.find(key);
  if (it == qcache.end()) {
    auto t0 = std::chrono::steady_clock::now(); g_sstats.z3calls++;
    bool fp = false; for (auto c : cs) fp |= c->hasFP;
    auto run = [&](Z3_solver S, CacheEnt &ce, unsigned tmo) {
      Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), tmo); Z3_solver_set_params(Z, S, p); Z3_params_dec_ref(Z, p);
      for (auto c : cs) Z3_solver_assert(Z, S, tb(c));
      Z3_lbool r = Z3_solver_check(Z, S);
      ce.r = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
      if (r == Z3_L_TRUE) {
        Z3_model m = Z3_solver_get_model(Z, S); Z3_model_inc_ref(Z, m);
        for (size_t v = 0; v < inv.size(); v++) if (inv[v]) { uint64_t x = 0; Z3_ast val;
          if (v < zvars.size() && zvars[v] && Z3_model_eval(Z, m, zvars[v], true, &val)) { Z3_get_numeral_uint64(Z, val, &x); }
          ce.m.push_back({(uint32_t)v, x}); }
        Z3_model_dec_ref(Z, m); }
    };
    CacheEnt ce;
    if (!fp) { Z3_solver_push(Z, ZS); run(ZS, ce, 4000 < g_timeout_ms ? 4000 : g_timeout_ms); Z3_solver_pop(Z, ZS, 1); } else ce.r = R_UNKNOWN;
    if (ce.r == R_UNKNOWN) { // stronger: fresh solver with the logic's own strategy
      ce = CacheEnt(); Z3_solver S = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, fp ? "QF_FPBV" : "QF_BV")); Z3_solver_inc_ref(Z, S); run(S, ce, g_timeout_ms); Z3_solver_dec_ref(Z, S); }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_sstats.secs += dt; if (dt > g_sstats.maxsecs) g_sstats.maxsecs = dt;
    if (getenv("SX_SLOW") && dt > atof(getenv("SX_SLOW"))) { fprintf(stderr, "slow query %.2fs res %d:\n", dt, ce.r); for (auto c : cs) fprintf(stderr, "   %s\n", str(c, 12).c_str()); }
    if (ce.r == R_SAT) g_sstats.sat++; else if (ce.r == R_UNSAT) g_sstats.unsat++; else g_sstats.unknown++;
    if (!g_dumpdir.empty() && !fp && ce.r != R_UNKNOWN && (g_sstats.z3calls % 7) == 1) dumpQuery(cs, ce.r);
    it = qcache.emplace(key, ce).first;
    // a SAT model must satisfy the constraints under our own evaluator (translation check)
    if (ce.r == R_SAT) { Model t = base; for (auto &p : ce.m) t.set(p.first, p.second);
      for (auto c : cs) if (!evalExpr(c, t)) { fprintf(stderr, "ENGINE: model does not satisfy %s\n", str(c, 10).c_str()); it->second.r = R_UNKNOWN; break; } }
  } else g_sstats.cachehits++;
  if (it->second.r == R_SAT) { out = base; for (auto &p : it->second.m) out.set(p.first, p.second); }
  return it->second.r;
}
}

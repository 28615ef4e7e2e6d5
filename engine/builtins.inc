// Builtin (engine-implemented) functions.  Every builtin is restartable: all decide()/concretize()
// calls happen before any side effect.
static void done(State &S, const DI &d, std::vector<Val> v) { retTo(S, v); }
static void done(State &S, const DI &d, Val v) { retTo(S, {v}); }
static void done(State &S, const DI &d) { retTo(S, {}); }
static ExprP drawVar(State &S, unsigned w) { // the k-th draw of a width shares one variable over all paths
  static std::map<std::pair<size_t, unsigned>, ExprP> tab; auto k = std::make_pair(S.log.size(), w); auto it = tab.find(k);
  if (it == tab.end()) it = tab.emplace(k, mkVar("in" + std::to_string(k.first) + "_" + std::to_string(w), w)).first; return it->second; }
static void mallocFn(State &S, const DI &d, Val n, bool zero) { uint64_t sz = concretize(S, n, 64); S.heapLive++; done(S, d, Val(newObj(S, sz, K_HEAP, "heap", !zero))); }
static void freeFn(State &S, const DI &d, Val p) {
  uint64_t a = concretize(S, p, 64); if (a) { MObj *o = obj(S, a >> 24);
    if (!o || o->kind != K_HEAP || (a & 0xffffff)) violation("memory", std::string(o ? "bad free of " : "double free: ") + addrStr(a));
    if (S.race && o->size) raceCheck(S, a >> 24, 0, o->size, true); freeObj(S, a >> 24); S.heapLive--; }
  done(S, d); }
static double asD(uint64_t v) { double x; memcpy(&x, &v, 8); return x; } static uint64_t asU(double x) { uint64_t v; memcpy(&v, &x, 8); return v; }
// va_list handling (SysV): overflow area only
static uint64_t vaNext(State &S, uint64_t ap) { uint64_t p = loadMem(S, Val(ap + 8), 64).c; storeMem(S, Val(ap + 8), Val(p + 8), 64); return loadMem(S, Val(p), 64).c; }
static std::string fmtC(State &S, const std::string &f, std::function<Val()> next) {
  std::string r; for (size_t i = 0; i < f.size(); i++) { if (f[i] != '%') { r += f[i]; continue; } if (f[i + 1] == '%') { r += '%'; i++; continue; }
    std::string sp = "%"; i++; int lng = 0; while (i < f.size() && !isalpha((unsigned char)f[i])) { if (f[i] == '*') { sp += std::to_string((int)concretize(S, next(), 64)); } else sp += f[i]; i++; }
    while (i < f.size() && (f[i] == 'l' || f[i] == 'z' || f[i] == 'h' || f[i] == 'j')) { if (f[i] != 'h') lng = 1; i++; }
    char c = f[i]; char buf[1024]; Val v = next(); uint64_t x = concretize(S, v, 64);
    if (strchr("dicuxXo", c)) { if (c == 'c') snprintf(buf, 1024, (sp + "c").c_str(), (int)x); else if (lng) snprintf(buf, 1024, (sp + "l" + c).c_str(), x); else snprintf(buf, 1024, (sp + c).c_str(), (int)x); }
    else if (strchr("eEfFgG", c)) snprintf(buf, 1024, (sp + c).c_str(), asD(x));
    else if (c == 's') { std::string t = cstr(S, x); r += sp == "%" ? t : (snprintf(buf, 1024, (sp + "s").c_str(), t.c_str()), std::string(buf)); continue; }
    else if (c == 'p') snprintf(buf, 1024, "0x%lx", x);
    else unmodelled("printf conversion"); r += buf; }
  return r; }
static void putStr(State &S, uint64_t p, uint64_t n, const std::string &r) { if (!n) return; size_t k = std::min<size_t>(r.size(), n - 1); for (size_t i = 0; i < k; i++) storeMem(S, Val(p + i), Val((uint8_t)r[i]), 8); storeMem(S, Val(p + k), Val(0), 8); }

static void reg(const std::string &n, Builtin f) { biIndex[n] = builtins.size(); builtins.push_back({n, f}); }
#define B(NAME) reg(NAME, [](State &S, const DI &d, std::vector<Val> &a)
static void ovf(const std::string &n, EOp op, bool sg) {
  reg(n, [op, sg](State &S, const DI &d, std::vector<Val> &a) { unsigned w = d.ws[0]; ExprP x = X(a[0], w), y = X(a[1], w); ExprP r = mkBin(op, x, y), o;
    if (w <= 32) { ExprP X2 = sg ? mkSext(x, 2 * w) : mkZext(x, 2 * w), Y2 = sg ? mkSext(y, 2 * w) : mkZext(y, 2 * w); ExprP R = mkBin(op, X2, Y2); o = mkNot(mkBin(E_EQ, R, sg ? mkSext(r, 2 * w) : mkZext(r, 2 * w))); }
    else if (op == E_ADD && !sg) o = mkBin(E_ULT, r, x);
    else if (op == E_SUB && !sg) o = mkBin(E_ULT, x, y);
    else if (op == E_MUL && !sg) { if (!a[1].e && a[1].c) o = mkBin(E_ULT, mkConst(maskw(w) / a[1].c, w), x); else if (!a[0].e && a[0].c) o = mkBin(E_ULT, mkConst(maskw(w) / a[0].c, w), y); else if (!a[0].e || !a[1].e) o = mkConst(0, 1); else { o = mkBin(E_AND, mkNot(mkBin(E_EQ, y, mkConst(0, w))), mkNot(mkBin(E_EQ, mkBin(E_UDIV, r, y), x))); } }
    else if (op == E_ADD) { ExprP z = mkConst(0, w); ExprP sx_ = mkBin(E_SLT, x, z), sy = mkBin(E_SLT, y, z), sr = mkBin(E_SLT, r, z); o = mkBin(E_AND, mkBin(E_EQ, sx_, sy), mkBin(E_XOR, sx_, sr)); }
    else if (op == E_SUB) { ExprP z = mkConst(0, w); ExprP sx_ = mkBin(E_SLT, x, z), sy = mkBin(E_SLT, y, z), sr = mkBin(E_SLT, r, z); o = mkBin(E_AND, mkBin(E_XOR, sx_, sy), mkBin(E_XOR, sx_, sr)); }
    else if (!a[0].e && !a[1].e) { int64_t q; o = mkConst(__builtin_mul_overflow((int64_t)a[0].c, (int64_t)a[1].c, &q), 1); }
    else if (!a[1].e && a[1].c && (int64_t)a[1].c > 0) { int64_t k = a[1].c; o = mkBin(E_OR, mkBin(E_SLT, mkConst(INT64_MAX / k, 64), x), mkBin(E_SLT, x, mkConst(INT64_MIN / k, 64))); }
    else unmodelled("64-bit signed multiply overflow");
    done(S, d, std::vector<Val>{V(r), V(o)}); }); }
static ExprP fabsOf(State &S, ExprP x, unsigned w) { if (w == 64 && x->hasFP && isChain(x)) return decide(S, chainSign(x)) ? mkBin(E_FSUB, mkConst(1ull << 63, 64), x) : x; return mkBin(E_AND, x, mkConst(maskw(w) >> 1, w)); }
static void fround(const std::string &n, int aux) { reg(n, [aux](State &S, const DI &d, std::vector<Val> &a) { unsigned w = d.ws[0]; done(S, d, V(roundTo(S, X(a[0], w), w, aux))); }); }
template <class F> static void fcon(const std::string &n, F f) { reg(n, [f, n](State &S, const DI &d, std::vector<Val> &a) { for (auto &v : a) if (v.e) unmodelled(n + " of a symbolic value"); done(S, d, Val(asU(f(asD(a[0].c), a.size() > 1 ? asD(a[1].c) : 0.0)))); }); }
static void sel2(const std::string &n, EOp cmp, bool swap) { reg(n, [cmp, swap](State &S, const DI &d, std::vector<Val> &a) { unsigned w = d.ws[0]; ExprP x = X(a[0], w), y = X(a[1], w); ExprP c = swap ? mkBin(cmp, y, x) : mkBin(cmp, x, y); done(S, d, V(mkIte(c, x, y))); }); }

static bool hashable(State &S, uint64_t &h1, uint64_t &h2);
static std::set<std::pair<uint64_t, uint64_t>> visited;

static void registerBuiltins() {
  // ---- harness API
  B("__sym_draw") { unsigned w = a[0].c; ExprP v = drawVar(S, w); S.log.push_back({v, 0, 0, ""}); done(S, d, V(mkZext(v, 64))); });
  B("__sym_choice") { uint64_t n = a[0].c;
    if (!S.pend) { if (n <= 1) { done(S, d, Val(0)); return; } nChoices++; ExprP v = drawVar(S, 32); ExprP in = mkBin(E_ULT, v, mkConst(n, 32)); S.log.push_back({v, 0, 1, ""}); S.m.set(v->c, 0); S.pc.push_back(in); S.pend = v; }
    uint64_t x = concretize(S, Val(0, S.pend), 32); S.pend = nullptr; done(S, d, Val(x)); });
  B("__sym_fork") { uint64_t x = concretize(S, a[0], 64); done(S, d, Val(x)); });
  B("__sym_issym") { done(S, d, Val(a[0].e ? 1 : 0)); });
  B("__sym_assume") { unsigned w = d.ws[0]; ExprP c = mkNot(mkBin(E_EQ, X(a[0], w), mkConst(0, w)));
    if (c->op == E_CONST) { if (!c->c) endPath(PATH_ASSUME); done(S, d); return; }
    if (!(evalExpr(c, S.m) & 1)) { Model o; SatRes r = solve(S.pc, c, S.m, o); if (r == R_UNKNOWN) inconc["solver gave no answer on an assumption"]++; if (r != R_SAT) endPath(PATH_ASSUME); S.m = o; }
    S.pc.push_back(c); done(S, d); });
  B("__sym_assert") { unsigned w = d.ws[0]; ExprP c = mkNot(mkBin(E_EQ, X(a[0], w), mkConst(0, w))); nAsserts++; S.asserts++;
    if (c->op == E_CONST && c->c) { done(S, d); return; }
    std::string msg = cstr(S, concretize(S, a[1], 64));
    if (c->op == E_CONST) violation("assert", msg);
    nAssertQ++; Model o; SatRes r = solve(S.pc, mkNot(c), S.m, o);
    if (r == R_SAT) { report(S, "assert", msg, o); if (optCheckUndef) {} if (!(evalExpr(c, S.m) & 1)) { Model q; if (solve(S.pc, c, S.m, q) != R_SAT) { nViolPaths++; endPath(PATH_VIOL); } S.m = q; } S.pc.push_back(c); }
    else if (r == R_UNKNOWN) inconc["solver gave no answer on an assertion: " + msg]++;
    done(S, d); });
  B("__sym_fail") { violation("assert", cstr(S, concretize(S, a[0], 64))); });
  B("__sym_observe") { S.obs.push_back({a[0].e ? X(a[0], 64) : nullptr, a[0].c}); done(S, d); });
  B("__sym_param") { uint64_t i = a[0].c; done(S, d, Val(i < params.size() ? params[i] : 0)); });
  B("__sym_cover") { uint64_t p = concretize(S, a[0], 64); static std::map<uint64_t, const char *> names; if (!names.count(p)) names[p] = strdup(cstr(S, p).c_str()); S.covers.push_back(names[p]); done(S, d); });
  B("__sym_native") { done(S, d, Val(0)); });
  B("__sym_heap_live") { done(S, d, Val(S.heapLive)); });
  B("__sym_trace") { if (getenv("SX_TRACE")) { fprintf(stderr, "TRACE %s", cstr(S, a[0].c).c_str()); for (size_t i = 1; i < a.size(); i++) { if (a[i].e) fprintf(stderr, " %s=%lu", str(a[i].e, 3).c_str(), evalExpr(a[i].e, S.m)); else fprintf(stderr, " %lu", a[i].c); } fprintf(stderr, "\n"); } done(S, d); });
  B("__sym_end") { endPath(PATH_DONE); });
  // ---- threads
  B("__vt_create") { uint64_t fa = concretize(S, a[0], 64); auto it = fnAt.find(fa); if (it == fnAt.end()) violation("memory", "bad thread function"); int t = S.th.size(); Val arg = a[1]; VC vc = S.T().vc; done(S, d, Val(t));
    S.th.emplace_back(); S.th[t].vc = vc; S.th[t].vc.c[t] = 1; S.T().vc.c[S.cur]++; int cur = S.cur; S.cur = t; pushCall(S, it->second, {arg}, 0); S.cur = cur; });
  B("__vt_switch") { uint64_t t = concretize(S, a[0], 32); done(S, d); S.cur = t; });
  B("__vt_self") { done(S, d, Val(S.cur)); });
  B("__vt_race") { if (a[0].c && !S.race) { for (auto &t : S.th) { (void)t; } S.T().vc.c[S.cur]++; } S.race = a[0].c; done(S, d); });
  B("__vt_drop") { S.th.resize(1); done(S, d); });
  B("__hb_off") { S.T().raceOff++; done(S, d); }); B("__hb_on") { S.T().raceOff--; done(S, d); });
  B("__hb_acquire") { S.T().vc.join(S.sync[a[0].c]); done(S, d); });
  B("__hb_release") { S.sync[a[0].c].join(S.T().vc); S.T().vc.c[S.cur]++; done(S, d); });
  B("__hb_join") { S.T().vc.join(S.th[a[0].c].vc); done(S, d); });
  B("__vt_visited") { uint64_t h1, h2; if (hashable(S, h1, h2)) { if (!visited.insert({h1, h2}).second) { nPruned++; endPath(PATH_ASSUME); } } done(S, d); });
  // ---- exceptions
  B("__cxa_allocate_exception") { uint64_t sz = a[0].c; uint64_t p = newObj(S, sz, K_HEAP, "exception", true); S.exc[p] = ExcRec(); done(S, d, Val(p)); });
  B("__cxa_free_exception") { S.exc.erase(a[0].c); freeObj(S, a[0].c >> 24); done(S, d); });
  B("__cxa_throw") { ExcRec &r = S.exc[a[0].c]; r.type = a[1].c; r.dtor = a[2].c; r.adj = a[0].c; throwExc(S, a[0].c); });
  B("__cxa_begin_catch") { uint64_t p = a[0].c; ExcRec &r = S.exc[p]; r.handlers++; r.rethrown = false; auto &c = S.T().caught; if (c.empty() || c.back() != p) c.push_back(p); done(S, d, Val(r.adj)); });
  B("__cxa_get_exception_ptr") { done(S, d, Val(S.exc[a[0].c].adj)); });
  B("__eng_endcatch") { auto &c = S.T().caught; uint64_t res = 0; if (!c.empty()) { uint64_t p = c.back(); ExcRec &r = S.exc[p]; if (--r.handlers == 0) { c.pop_back(); if (!r.rethrown) res = p; } } done(S, d, Val(res)); });
  B("__eng_excdtor") { done(S, d, Val(S.exc[a[0].c].dtor)); });
  B("__cxa_rethrow") { auto &c = S.T().caught; if (c.empty()) violation("terminate", "rethrow without an exception"); uint64_t p = c.back(); S.exc[p].rethrown = true; throwExc(S, p); });
  B("_Unwind_Resume") { uint64_t p = a[0].c; popFrame(S); unwind(S, p); });
  B("llvm.eh.typeid.for") { done(S, d, Val((a[0].c >> 24) & 0xffffffff)); });
  B("_ZSt9terminatev") { violation("terminate", "std::terminate called"); });
  B("abort") { violation("abort", "abort called"); }); B("__assert_fail") { violation("abort", "assertion failed: " + cstr(S, a[0].c)); });
  B("_ZSt21__glibcxx_assert_failPKciS0_S0_") { violation("abort", "library assertion failed"); });
  B("__cxa_pure_virtual") { violation("abort", "pure virtual call"); }); B("exit") { violation("abort", "exit called"); }); B("_exit") { violation("abort", "exit called"); });
  B("llvm.lifetime.end") { uint64_t id = a[1].c >> 24; if (!a[1].e && obj(S, id) && obj(S, id)->kind == K_STACK) { MObj *o = wobj(S, id); o->s.assign(o->size, UNDEF); o->sh.clear(); } done(S, d); });
  B("llvm.trap") { violation("abort", "trap"); }); B("__stack_chk_fail") { violation("abort", "stack check"); });
  B("__dynamic_cast") { uint64_t p = concretize(S, a[0], 64); uint64_t dst = a[2].c; uint64_t vt = loadMem(S, Val(p), 64).c; uint64_t top = p + loadMem(S, Val(vt - 16), 64).c; uint64_t ti = loadMem(S, Val(vt - 8), 64).c; uint64_t out = 0; if (!upcast(S, ti, dst, top, out)) out = 0; done(S, d, Val(out)); });
  // ---- memory
  for (auto n : {"malloc", "_Znwm", "_Znam"}) B(n) { mallocFn(S, d, a[0], false); });
  for (auto n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t"}) B(n) { mallocFn(S, d, a[0], false); });
  B("calloc") { uint64_t x = concretize(S, a[0], 64), y = concretize(S, a[1], 64); mallocFn(S, d, Val(x * y), true); });
  for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) B(n) { freeFn(S, d, a[0]); });
  B("realloc") { uint64_t p = concretize(S, a[0], 64), n = concretize(S, a[1], 64); uint64_t q = newObj(S, n, K_HEAP, "heap", true); if (p) { MObj *o = obj(S, p >> 24); if (!o) violation("memory", "realloc of freed memory"); copyMem(S, q, p, std::min<uint64_t>(n, o->size)); freeObj(S, p >> 24); } else S.heapLive++; done(S, d, Val(q)); });
  auto cpy = [](State &S, const DI &d, std::vector<Val> &a) { uint64_t n = concretize(S, a[2], 64), x = concretize(S, a[0], 64), y = concretize(S, a[1], 64); copyMem(S, x, y, n); done(S, d, Val(x)); };
  for (auto n : {"memcpy", "memmove", "llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline"}) reg(n, cpy);
  auto mset = [](State &S, const DI &d, std::vector<Val> &a) { uint64_t n = concretize(S, a[2], 64), x = concretize(S, a[0], 64); Val v = a[1].e ? V(mkExtract(X(a[1], d.ws[1]), 0, 8)) : Val(a[1].c & 255);
    if (n) { uint64_t id, off; ExprP oe; access(S, Val(x), n, true, id, off, oe); if (S.race) raceCheck(S, id, off, n, true); MObj *o = wobj(S, id); for (uint64_t i = 0; i < n; i++) writeAt(o, off + i, 1, v, 8); } done(S, d, Val(x)); };
  for (auto n : {"memset", "llvm.memset", "llvm.memset.inline"}) reg(n, mset);
  auto mcmp = [](State &S, const DI &d, std::vector<Val> &a) { uint64_t n = concretize(S, a[2], 64), x = concretize(S, a[0], 64), y = concretize(S, a[1], 64);
    std::vector<std::pair<Val, Val>> v; for (uint64_t i = 0; i < n; i++) { Val p = loadMem(S, Val(x + i), 8), q = loadMem(S, Val(y + i), 8); v.push_back({p, q}); if (!p.e && !q.e && p.c != q.c) break; }
    ExprP r = mkConst(0, 32); for (size_t i = v.size(); i-- > 0;) { ExprP p = X(v[i].first, 8), q = X(v[i].second, 8); r = mkIte(mkBin(E_EQ, p, q), r, mkBin(E_SUB, mkZext(p, 32), mkZext(q, 32))); }
    done(S, d, V(r)); };
  reg("memcmp", mcmp); reg("bcmp", mcmp);
  B("memchr") { uint64_t n = concretize(S, a[2], 64), x = concretize(S, a[0], 64); ExprP c = mkExtract(X(a[1], 32), 0, 8); std::vector<ExprP> b; bool sym = false; for (uint64_t i = 0; i < n; i++) { Val v = loadMem(S, Val(x + i), 8); if (v.e) sym = true; b.push_back(X(v, 8)); }
    if (!sym) { ExprP r = mkConst(0, 64); for (size_t i = n; i-- > 0;) r = mkIte(mkBin(E_EQ, b[i], c), mkConst(x + i, 64), r); done(S, d, V(r)); return; }
    for (uint64_t i = 0; i < n; i++) if (decide(S, mkBin(E_EQ, b[i], c))) { done(S, d, Val(x + i)); return; }
    done(S, d, Val(0)); });
  // ---- intrinsics
  ovf("llvm.uadd.with.overflow", E_ADD, false); ovf("llvm.usub.with.overflow", E_SUB, false); ovf("llvm.umul.with.overflow", E_MUL, false);
  ovf("llvm.sadd.with.overflow", E_ADD, true); ovf("llvm.ssub.with.overflow", E_SUB, true); ovf("llvm.smul.with.overflow", E_MUL, true);
  sel2("llvm.umin", E_ULT, false); sel2("llvm.umax", E_ULT, true); sel2("llvm.smin", E_SLT, false); sel2("llvm.smax", E_SLT, true);
  B("llvm.abs") { unsigned w = d.ws[0]; ExprP x = X(a[0], w); done(S, d, V(mkIte(mkBin(E_SLT, x, mkConst(0, w)), mkBin(E_SUB, mkConst(0, w), x), x))); });
  B("llvm.usub.sat") { unsigned w = d.ws[0]; ExprP x = X(a[0], w), y = X(a[1], w); done(S, d, V(mkIte(mkBin(E_ULT, x, y), mkConst(0, w), mkBin(E_SUB, x, y)))); });
  B("llvm.uadd.sat") { unsigned w = d.ws[0]; ExprP x = X(a[0], w), y = X(a[1], w), r = mkBin(E_ADD, x, y); done(S, d, V(mkIte(mkBin(E_ULT, r, x), mkConst(maskw(w), w), r))); });
  B("llvm.expect") { done(S, d, a[0]); }); B("llvm.is.constant") { done(S, d, Val(0)); }); B("llvm.objectsize") { done(S, d, Val(~0ull)); });
  B("llvm.stacksave") { done(S, d, Val(0)); }); B("llvm.stackrestore") { done(S, d); }); B("llvm.threadlocal.address") { done(S, d, a[0]); }); B("llvm.prefetch") { done(S, d); });
  B("llvm.launder.invariant.group") { done(S, d, a[0]); }); B("llvm.strip.invariant.group") { done(S, d, a[0]); }); B("llvm.ptrmask") { done(S, d, V(mkBin(E_AND, X(a[0], 64), X(a[1], 64)))); });
  B("llvm.bswap") { unsigned w = d.ws[0]; ExprP x = X(a[0], w), r = nullptr; for (unsigned i = 0; i < w; i += 8) { ExprP b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } done(S, d, V(r)); });
  B("llvm.ctpop") { unsigned w = d.ws[0]; ExprP x = X(a[0], w), r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(E_ADD, r, mkZext(mkExtract(x, i, 1), w)); done(S, d, V(r)); });
  B("llvm.ctlz") { unsigned w = d.ws[0]; ExprP x = X(a[0], w), r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkBin(E_EQ, mkExtract(x, i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r); done(S, d, V(r)); });
  B("llvm.cttz") { unsigned w = d.ws[0]; ExprP x = X(a[0], w), r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkBin(E_EQ, mkExtract(x, i, 1), mkConst(1, 1)), mkConst(i, w), r); done(S, d, V(r)); });
  for (int lr = 0; lr < 2; lr++) reg(lr ? "llvm.fshr" : "llvm.fshl", [lr](State &S, const DI &d, std::vector<Val> &a) { unsigned w = d.ws[0]; uint64_t s = concretize(S, a[2], w) % w; ExprP x = X(a[0], w), y = X(a[1], w); ExprP r; if (s == 0) r = lr ? y : x; else if (lr) r = mkBin(E_OR, mkBin(E_SHL, x, mkConst(w - s, w)), mkBin(E_LSHR, y, mkConst(s, w))); else r = mkBin(E_OR, mkBin(E_SHL, x, mkConst(s, w)), mkBin(E_LSHR, y, mkConst(w - s, w))); done(S, d, V(r)); });
  for (auto n : {"floor", "llvm.floor", "floorf"}) fround(n, 0); for (auto n : {"ceil", "llvm.ceil"}) fround(n, 1); for (auto n : {"trunc", "llvm.trunc", "truncf"}) fround(n, 2); for (auto n : {"round", "llvm.round"}) fround(n, 3); for (auto n : {"rint", "nearbyint", "llvm.rint", "llvm.nearbyint"}) fround(n, 4);
  for (auto n : {"fabs", "llvm.fabs"}) B(n) { unsigned w = d.ws[0]; done(S, d, V(fabsOf(S, X(a[0], w), w))); });
  for (auto n : {"copysign", "llvm.copysign"}) B(n) { unsigned w = d.ws[0]; ExprP y = X(a[1], w), sg = y->hasFP && isChain(y) ? mkConst(decide(S, chainSign(y)) ? 1ull << (w - 1) : 0, w) : mkBin(E_AND, y, mkConst(1ull << (w - 1), w)), m = fabsOf(S, X(a[0], w), w); if (sg->op == E_CONST && m->hasFP) m = sg->c ? mkBin(E_FSUB, mkConst(1ull << (w - 1), w), m) : m; else m = mkBin(E_OR, m, sg); done(S, d, V(m)); });
  for (auto n : {"sqrt", "llvm.sqrt"}) B(n) { unsigned w = d.ws[0]; done(S, d, V(mkFUn(E_FSQRT, X(a[0], w), w))); });
  B("llvm.fmuladd") { unsigned w = d.ws[0]; done(S, d, V(mkBin(E_FADD, mkBin(E_FMUL, X(a[0], w), X(a[1], w)), X(a[2], w)))); });
  B("llvm.is.fpclass") { unsigned w = d.ws[0]; uint64_t m = a[1].c; ExprP x = X(a[0], w);
    if (w == 64 && x->hasFP && isChain(x)) { bool ng = decide(S, chainSign(x)); uint64_t sb = (uint64_t)ng << 63; auto k = [&](uint64_t c) { return mkConst(c | sb, 64); }; auto lt = [&](ExprP p, ExprP q) { return ng ? mkBin(E_FLT, q, p) : mkBin(E_FLT, p, q); };
      ExprP inf = mkBin(E_FEQ, x, k(0x7ff0000000000000ull)), z = mkBin(E_FEQ, x, k(0)), small = lt(x, k(1ull << 52)), r = mkConst(0, 1); auto add = [&](int neg, int pos, ExprP e) { if (m >> (ng ? neg : pos) & 1) r = mkBin(E_OR, r, e); };
      add(2, 9, inf); add(5, 6, z); add(4, 7, mkBin(E_AND, small, mkNot(z))); add(3, 8, mkBin(E_AND, mkNot(small), mkNot(inf))); done(S, d, V(r)); return; } unsigned mb = w == 64 ? 52 : 23; ExprP abs = mkBin(E_AND, x, mkConst(maskw(w) >> 1, w)); uint64_t inf = w == 64 ? 0x7ff0000000000000ull : 0x7f800000; ExprP neg = mkBin(E_EQ, mkExtract(x, w - 1, 1), mkConst(1, 1)), pos = mkNot(neg);
    ExprP isn = mkBin(E_ULT, mkConst(inf, w), abs), isi = mkBin(E_EQ, abs, mkConst(inf, w)), z = mkBin(E_EQ, abs, mkConst(0, w)), sub = mkBin(E_AND, mkNot(z), mkBin(E_ULT, abs, mkConst(1ull << mb, w))); ExprP nrm = mkNot(mkBin(E_OR, mkBin(E_OR, isn, isi), mkBin(E_OR, z, sub)));
    ExprP quiet = mkBin(E_EQ, mkExtract(x, mb - 1, 1), mkConst(1, 1)); ExprP r = mkConst(0, 1); auto add = [&](int bit, ExprP e) { if (m >> bit & 1) r = mkBin(E_OR, r, e); };
    add(0, mkBin(E_AND, isn, mkNot(quiet))); add(1, mkBin(E_AND, isn, quiet)); add(2, mkBin(E_AND, isi, neg)); add(3, mkBin(E_AND, nrm, neg)); add(4, mkBin(E_AND, sub, neg)); add(5, mkBin(E_AND, z, neg)); add(6, mkBin(E_AND, z, pos)); add(7, mkBin(E_AND, sub, pos)); add(8, mkBin(E_AND, nrm, pos)); add(9, mkBin(E_AND, isi, pos)); done(S, d, V(r)); });
  fcon("pow", [](double x, double y) { return pow(x, y); }); fcon("log10", [](double x, double) { return log10(x); }); fcon("log", [](double x, double) { return log(x); }); fcon("log2", [](double x, double) { return log2(x); }); fcon("exp", [](double x, double) { return exp(x); }); fcon("fmod", [](double x, double y) { return fmod(x, y); }); fcon("llvm.pow", [](double x, double y) { return pow(x, y); }); fcon("llvm.log10", [](double x, double) { return log10(x); }); fcon("llvm.exp10", [](double x, double) { return pow(10, x); }); fcon("exp10", [](double x, double) { return pow(10, x); });
  B("llvm.powi") { if (a[0].e || a[1].e) unmodelled("powi of a symbolic value"); done(S, d, Val(asU(__builtin_powi(asD(a[0].c), (int)a[1].c)))); });
  B("llvm.minnum") { ExprP x = X(a[0], 64), y = X(a[1], 64); done(S, d, V(mkIte(mkBin(E_FLT, y, x), y, x))); }); B("llvm.maxnum") { ExprP x = X(a[0], 64), y = X(a[1], 64); done(S, d, V(mkIte(mkBin(E_FLT, x, y), y, x))); });
  // ---- text conversions of doubles used by the stream model
  B("__sym_fmt_double") { // (char *buf, double v, int fmt, int prec, int flags): buffer of 512 bytes; returns length
    uint64_t buf = a[0].c; int fmt = concretize(S, a[2], 32), prec = (int)concretize(S, a[3], 32), fl = concretize(S, a[4], 32);
    if (!a[1].e) { std::string f = "%"; if (fl & 1) f += "+"; if (fl & 2) f += "#"; char c = "gfea"[fmt & 3]; if (fl & 4) c = toupper(c); if (fmt != 3) f += ".*"; f += c; char b[512]; int n = fmt == 3 ? snprintf(b, 512, f.c_str(), asD(a[1].c)) : snprintf(b, 512, f.c_str(), prec, asD(a[1].c)); if (n > 500) unmodelled("very long floating text"); for (int i = 0; i < n; i++) storeMem(S, Val(buf + i), Val((uint8_t)b[i]), 8); done(S, d, Val(n)); return; }
    ExprP x = a[1].e; bool neg = decide(S, mkBin(E_EQ, mkExtract(x, 63, 1), mkConst(1, 1)));
    // long texts, for those values whose real text is at least as long: huge ones in fixed notation, ones with many significant digits in the others
    int extra = 0; ExprP ex = mkExtract(x, 52, 11), fin = mkNot(mkBin(E_EQ, ex, mkConst(2047, 11)));
    if (fmt == 1 && decide(S, mkBin(E_AND, fin, mkBin(E_ULT, mkConst(1023 + 900, 11), ex)))) extra = 248 + prec; else if (fmt == 2 && prec > 15 && decide(S, fin)) extra = prec - 15;
    else if (fmt == 0 && prec > 16 && decide(S, mkBin(E_AND, mkBin(E_EQ, mkExtract(x, 0, 1), mkConst(1, 1)), mkBin(E_AND, mkBin(E_ULT, mkConst(0, 11), ex), mkBin(E_ULT, ex, mkConst(1023 - 60, 11)))))) extra = prec - 16; if (extra > 470) extra = 470;
    int n = 0; auto put = [&](Val v) { storeMem(S, Val(buf + n), v, 8); n++; }; auto L = [&](int k) { put(Val('a' + (k & 15))); };
    if (neg) put(Val('-')); else if (fl & 1) put(Val('+'));
    for (int i = 15; i >= 8; i--) { ExprP nb = i == 15 ? mkZext(mkExtract(x, 60, 3), 8) : mkZext(mkExtract(x, i * 4, 4), 8); put(V(mkBin(E_ADD, nb, mkConst('a', 8)))); }
    put(Val('.'));
    for (int i = 7; i >= 0; i--) put(V(mkBin(E_ADD, mkZext(mkExtract(x, i * 4, 4), 8), mkConst('a', 8))));
    for (int i = 0; i < extra; i++) L(i & 1 ? 3 : 12);
    L(fmt); L(prec >> 8); L(prec >> 4); L(prec); L(fl >> 1); done(S, d, Val(n)); });
  B("__sym_parse_double") { uint64_t p = concretize(S, a[0], 64), n = concretize(S, a[1], 64); std::string s; for (uint64_t i = 0; i < n; i++) s.push_back((char)concretize(S, loadMem(S, Val(p + i), 8), 8)); char *e; double v = strtod(s.c_str(), &e); storeMem(S, a[2], Val(asU(v)), 64); done(S, d, Val(e - s.c_str())); });
  // ---- C text formatting
  B("llvm.va_start") { uint64_t ap = a[0].c; Frame &f = S.F(); uint64_t n = f.va.size(); uint64_t o = newObj(S, n * 8 + 8, K_STACK, "varargs", false); S.F().al.push_back(o >> 24); for (uint64_t i = 0; i < n; i++) storeMem(S, Val(o + 8 * i), S.F().va[i], 64); storeMem(S, Val(ap), Val(48), 32); storeMem(S, Val(ap + 4), Val(304), 32); storeMem(S, Val(ap + 8), Val(o), 64); storeMem(S, Val(ap + 16), Val(0), 64); done(S, d); });
  B("llvm.va_end") { done(S, d); }); B("llvm.va_copy") { copyMem(S, a[0].c, a[1].c, 24); done(S, d); });
  B("strtod") { uint64_t p = concretize(S, a[0], 64); std::string s; for (int i = 0; i < 4000; i++) { uint8_t c = concretize(S, loadMem(S, Val(p + i), 8), 8); if (!c) break; s.push_back(c); } char *e; double v = strtod(s.c_str(), &e); if (a[1].c) storeMem(S, a[1], Val(p + (e - s.c_str())), 64); done(S, d, Val(asU(v))); });
  for (auto nm : {"printf", "fprintf", "puts", "putchar", "fputs", "fflush", "fwrite", "fputc", "write"}) B(nm) { done(S, d, Val(0)); });
  B("getenv") { done(S, d, Val(0)); });
}
// state hash used by the thread harnesses to cut re-exploration of identical, fully concrete states
static bool hashable(State &S, uint64_t &h1, uint64_t &h2) { (void)S; (void)h1; (void)h2; return false; }

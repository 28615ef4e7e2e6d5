// Native replay runtime: runs a harness compiled against the real library (real libstdc++) with the
// values of one recorded path.  argv[1] = file holding the draws (decimal, separated by blanks),
// argv[2..] = harness parameters.  Exit: 0 path completed, 42 assertion failed, 43 assumption false,
// 44 the log does not fit the path, 45 data race (threaded replays), anything else = crash.
#include "sym.h"
#include "vt.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <exception>
static std::vector<uint64_t> nlog, nparams, nobs; static size_t pos;
static void flushObs() { printf("OBS"); for (auto v : nobs) printf(" %lu", (unsigned long)v); printf("\n"); fflush(stdout); }
static void bye(int c, const char *what, const char *m) { printf("%s %s\n", what, m); flushObs(); _exit(c); }
static uint64_t next(const char *n) { if (pos >= nlog.size()) bye(44, "LOG-END", n); return nlog[pos++]; }
extern "C" {
void sym_main();
uint64_t __sym_draw(int bits, const char *n) { uint64_t v = next(n); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
uint64_t __sym_choice(uint64_t n) { if (n <= 1) return 0; uint64_t v = next("choice"); if (v >= n) bye(44, "LOG-MISMATCH", "choice"); return v; }
uint64_t __sym_fork(uint64_t v) { return v; }
int __sym_issym(uint64_t) { return 0; }
void __sym_assume(int c) { if (!c) bye(43, "ASSUMPTION-FALSE", ""); }
void __sym_assert(int c, const char *m) { if (!c) bye(42, "ASSERT-FAILED", m); }
void __sym_fail(const char *m) { bye(42, "ASSERT-FAILED", m); }
void __sym_observe(uint64_t v) { nobs.push_back(v); }
uint64_t __sym_param(uint64_t i) { return i < nparams.size() ? nparams[i] : 0; }
void __sym_cover(const char *) {}
int __sym_native(void) { return 1; }
uint64_t __sym_heap_live(void) { return 0; }
void __sym_trace(const char *m, uint64_t a, uint64_t b, uint64_t c) { if (getenv("SX_TRACE")) fprintf(stderr, "TRACE %s %lu %lu %lu\n", m, (unsigned long)a, (unsigned long)b, (unsigned long)c); }
void __sym_end(void) { bye(0, "DONE", ""); abort(); }
#ifndef SX_STRINGS_ONLY
int __sym_fmt_double(char *b, double v, int fmt, int prec, int) { char f[8] = "%.*g"; f[3] = "gfea"[fmt & 3]; return snprintf(b, 512, f, prec, v); }
#endif
}
#ifdef SX_THREADS
#include <ucontext.h>
#include <map>
#include <unordered_map>
#include <set>
#include <dlfcn.h>
struct EhGlobals { void *caught; unsigned int uncaught; };
extern "C" EhGlobals *__cxa_get_globals();
struct Th { ucontext_t u; char *stk; void (*fn)(void *); void *arg; EhGlobals eh; };
static std::vector<Th *> ths; static int curT;
typedef std::map<int, uint64_t> VC; static std::vector<VC> vcs; static std::vector<int> raceOff; static bool raceOn, inRt;
static std::unordered_map<const void *, VC> *syncs;
static void joinVC(VC &a, const VC &b) { for (auto &p : b) if (a[p.first] < p.second) a[p.first] = p.second; }
static void ensure() { if (ths.empty()) { inRt = true; Th *m = new Th(); ths.push_back(m); vcs.emplace_back(); vcs[0][0] = 1; raceOff.push_back(0); syncs = new std::unordered_map<const void *, VC>(); inRt = false; } }
static void tramp() { Th *t = ths[curT]; t->fn(t->arg); bye(44, "THREAD-RETURNED", ""); }
extern "C" {
int __vt_create(void (*fn)(void *), void *arg) { ensure(); inRt = true; Th *t = new Th(); t->fn = fn; t->arg = arg; t->stk = (char *)malloc(1 << 20); getcontext(&t->u); t->u.uc_stack.ss_sp = t->stk; t->u.uc_stack.ss_size = 1 << 20; t->u.uc_link = 0; makecontext(&t->u, tramp, 0); t->eh.caught = 0; t->eh.uncaught = 0; ths.push_back(t); int id = ths.size() - 1; VC v = vcs[curT]; v[id] = 1; vcs.push_back(v); vcs[curT][curT]++; raceOff.push_back(0); inRt = false; return id; }
void __vt_switch(int t) { ensure(); if (t == curT) return; Th *a = ths[curT], *b = ths[t]; a->eh = *__cxa_get_globals(); *__cxa_get_globals() = b->eh; curT = t; swapcontext(&a->u, &b->u); }
int __vt_self(void) { return curT; }
void __vt_race(int on) { ensure(); if (on && !raceOn) vcs[curT][curT]++; raceOn = on; }
void __vt_drop(void) { while (ths.size() > 1) { ths.pop_back(); vcs.pop_back(); raceOff.pop_back(); } }
void __vt_visited(void) {}
void __hb_off(void) { ensure(); raceOff[curT]++; } void __hb_on(void) { ensure(); raceOff[curT]--; }
void __hb_acquire(const void *p) { ensure(); inRt = true; joinVC(vcs[curT], (*syncs)[p]); inRt = false; }
void __hb_release(const void *p) { ensure(); inRt = true; joinVC((*syncs)[p], vcs[curT]); vcs[curT][curT]++; inRt = false; }
void __hb_join(int t) { ensure(); inRt = true; joinVC(vcs[curT], vcs[t]); inRt = false; }
// ---- instrumentation hooks (the library and the harness are compiled with -fsanitize=thread, this
// runtime replaces the one of the compiler: happens-before over the replayed schedule)
struct Sh { int wt; uint64_t wk; void *wpc; std::map<int, uint64_t> r; void *rpc; };
static std::unordered_map<uintptr_t, Sh> *shadow;
static bool onStack(uintptr_t a) { for (auto t : ths) if (t->stk && a >= (uintptr_t)t->stk && a < (uintptr_t)t->stk + (1 << 20)) return true; return false; }
static void acc(const void *p, size_t n, bool w, void *pc) {
  if (!raceOn || inRt || ths.empty() || raceOff[curT]) return; inRt = true; if (!shadow) shadow = new std::unordered_map<uintptr_t, Sh>();
  VC &v = vcs[curT];
  for (uintptr_t a = (uintptr_t)p; a < (uintptr_t)p + n; a++) { Sh &s = (*shadow)[a]; bool bad = s.wk && s.wt != curT && s.wk > v[s.wt]; void *o = s.wpc;
    if (!bad && w) for (auto &r : s.r) if (r.first != curT && r.second > v[r.first]) { bad = true; o = s.rpc; }
    if (bad) { Dl_info i1, i2; const char *n1 = dladdr(pc, &i1) && i1.dli_sname ? i1.dli_sname : "?", *n2 = dladdr(o, &i2) && i2.dli_sname ? i2.dli_sname : "?"; printf("in %s against %s\n", n1, n2); bye(45, "DATA-RACE", w ? "write" : "read"); }
    if (w) { s.wt = curT; s.wk = v[curT]; s.wpc = pc; } else { s.r[curT] = v[curT]; s.rpc = pc; } }
  inRt = false; }
#define RA __builtin_return_address(0)
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(N) void __tsan_read##N(void *p) { acc(p, N, false, RA); } void __tsan_write##N(void *p) { acc(p, N, true, RA); } void __tsan_unaligned_read##N(void *p) { acc(p, N, false, RA); } void __tsan_unaligned_write##N(void *p) { acc(p, N, true, RA); } void __tsan_read_write##N(void *p) { acc(p, N, true, RA); } void __tsan_unaligned_read_write##N(void *p) { acc(p, N, true, RA); } void __tsan_volatile_read##N(void *p) { acc(p, N, false, RA); } void __tsan_volatile_write##N(void *p) { acc(p, N, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *) { acc(p, 8, true, RA); } void __tsan_vptr_read(void **p) { acc(p, 8, false, RA); }
void __tsan_read_range(void *p, size_t n) { acc(p, n, false, RA); } void __tsan_write_range(void *p, size_t n) { acc(p, n, true, RA); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { acc(s, n, false, RA); acc(d, n, true, RA); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { acc(s, n, false, RA); acc(d, n, true, RA); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { acc(d, n, true, RA); return memset(d, c, n); }
static bool noYield(void *pc) { Dl_info i; const char *n = dladdr(pc, &i) && i.dli_sname ? i.dli_sname : ""; return strstr(n, "_M_release") || strstr(n, "exchange_and_add") || strstr(n, "_atomic_add") || strstr(n, "_M_add_ref") || strstr(n, "_M_weak_") || strstr(n, "_M_use_count") || strstr(n, "_Sp_counted_base"); }
static void atomicPoint(const void *a, void *pc, bool acq, bool rel) { if (!raceOn || inRt || ths.empty()) return; if (!raceOff[curT] && !noYield(pc)) vt_yield(); if (acq) __hb_acquire(a); if (rel) __hb_release(a); }
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T *a, int) { atomicPoint((void *)a, RA, true, false); return *a; } \
void __tsan_atomic##B##_store(volatile T *a, T v, int) { atomicPoint((void *)a, RA, false, true); *a = v; } \
T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { atomicPoint((void *)a, RA, true, true); T o = *a; *a = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { atomicPoint((void *)a, RA, true, true); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { atomicPoint((void *)a, RA, true, true); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { atomicPoint((void *)a, RA, true, true); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { atomicPoint((void *)a, RA, true, true); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { atomicPoint((void *)a, RA, true, true); T o = *a; *a = o ^ v; return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { atomicPoint((void *)a, RA, true, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int x, int y) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, x, y); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { atomicPoint((void *)a, RA, true, true); T o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
static void forget(void *p, size_t n) { if (shadow && n) for (uintptr_t a = (uintptr_t)p; a < (uintptr_t)p + n; a++) shadow->erase(a); }
#include <malloc.h>
#include <dlfcn.h>
// An exception object lives in recycled memory too, which does not come from operator new.
static void forget(void *p, size_t n);
extern "C" void *__cxa_allocate_exception(size_t n) noexcept { static void *(*real)(size_t) = (void *(*)(size_t))dlsym(RTLD_NEXT, "__cxa_allocate_exception"); void *p = real(n); if (p && raceOn && !inRt) { inRt = true; forget(p, n); inRt = false; } return p; }
#include <new>
// freeing is a write (a race with any unordered access); fresh memory carries no history
static void *newp(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); if (raceOn && !inRt) { inRt = true; forget(p, malloc_usable_size(p)); inRt = false; } return p; }
static void delp(void *p, void *pc) { if (p && raceOn && !inRt && !ths.empty()) { size_t n = malloc_usable_size(p); bool any = false; (void)any; inRt = true; 
    if (shadow && !raceOff[curT]) { VC &v = vcs[curT]; for (uintptr_t a = (uintptr_t)p; a < (uintptr_t)p + n; a++) { auto it = shadow->find(a); if (it == shadow->end()) continue; Sh &s = it->second; bool bad = s.wk && s.wt != curT && s.wk > v[s.wt]; for (auto &r : s.r) if (r.first != curT && r.second > v[r.first]) bad = true; if (bad) { printf("free\n"); bye(45, "DATA-RACE", "free"); } } }
    forget(p, n); inRt = false; } (void)pc; free(p); }
void *operator new(size_t n) { return newp(n); } void *operator new[](size_t n) { return newp(n); }
void operator delete(void *p) noexcept { delp(p, RA); } void operator delete[](void *p) noexcept { delp(p, RA); } void operator delete(void *p, size_t) noexcept { delp(p, RA); } void operator delete[](void *p, size_t) noexcept { delp(p, RA); }
#endif
extern "C" char __libc_single_threaded;
int main(int argc, char **argv) {
#ifdef SX_THREADS
  __libc_single_threaded = 0;   // the cooperative threads stand for real ones
#endif

  FILE *f = argc > 1 ? fopen(argv[1], "r") : nullptr; unsigned long v; if (f) { while (fscanf(f, "%lu", &v) == 1) nlog.push_back(v); fclose(f); }
  for (int i = 2; i < argc; i++) nparams.push_back(strtoull(argv[i], 0, 10));
  sym_main();
  printf("DONE\n"); if (pos != nlog.size()) printf("UNUSED-LOG %zu\n", nlog.size() - pos); flushObs(); _exit(0);
}

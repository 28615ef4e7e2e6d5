// B01/B02: barrier without expiring limits, every interleaving.
//  param(0) = waiters N, param(1) = threads T, param(2) = rounds per thread, param(3) = spurious wake-ups, param(4): 0 waits without a limit, 1 with a limit too long to expire, 2 each thread decides, param(5): 1 checks nobody passes early (B01), 2 checks that everyone is released (B02); param(6) = 0 every schedule, 1 + k those that depart at most k times from the round-robin order
#include "ref.hpp"
#include "Barrier.hxx"
#include "vt.h"
// (not static: see M04.cpp)
SoDa::Barrier *bar; int N, T, R, called, returned, thrown, done[21], entered[21]; unsigned long lim[21]; bool early, uneven;
static void thread(int t, void *) { __hb_off(); for (int k = 0; k < R; k++) { called++; entered[t]++; unsigned long l = lim[t]; SoDa::Barrier *bar = ::bar; __hb_on(); bool ok = true;
    try { if (l) bar->wait(l); else bar->wait(); } catch (SoDa::Exception &) { ok = false; }
    __hb_off(); if (!ok) { thrown++; break; } returned++; done[t]++; if (returned > N * (called / N)) early = true; if (N == T) for (int i = 0; i < T; i++) if (entered[i] < done[t]) uneven = true; } __hb_on(); }
// param(0) = 0, param(1) = 2: param(2) threads and any larger number of waiters
// param(0) = 0: limits, param(1): 0 unsigned long milliseconds 1 duration; param(2) = number of arbitrary bits of the limit
uint64_t limit; int outcome; int64_t at;
static void alone(int, void *) { __hb_off(); uint64_t limit = ::limit; SoDa::Barrier *bar = ::bar; __hb_on(); int o = 1; try { if (sym_param(1)) bar->wait(std::chrono::duration<long, std::milli>((long)limit)); else bar->wait((unsigned long)limit); } catch (SoDa::Exception &) { o = 2; } __hb_off(); outcome = o; at = vt_now_ns(); __hb_on(); }
static void limits() {
  limit = sym_u64() & (sym_param(2) >= 64 ? ~0ull : (1ull << sym_param(2)) - 1); if (sym_param(1)) limit &= ~0ull >> 1; outcome = 0; at = -1; bar = new SoDa::Barrier("bar", 2);
  int blocked = vt_run(1, alone, 0, 0);
  if (limit == 0 || limit >= 900ull * 24 * 3600 * 1000) { sym_assert(blocked == 1 && outcome == 0, "limit zero does not expire, nor does one of years"); sym_cover("no limit"); } else { sym_assert(blocked == 0 && outcome == 2, "the limit expires"); sym_assert(at == (int64_t)limit * 1000000, "exactly the given number of milliseconds"); sym_cover("expired"); }
  sym_observe(outcome);
}
static void few(int, void *) { __hb_off(); SoDa::Barrier *bar = ::bar; unsigned long l = lim[0]; __hb_on(); int o = 1; try { if (l) bar->wait(l); else bar->wait(); } catch (SoDa::Exception &) { o = 2; } __hb_off(); returned++; __hb_on(); }
static void any_number() { unsigned n = sym_u32(); T = sym_param(2); sym_assume(n > (unsigned)T); returned = 0; lim[0] = sym_choice(2) ? 1ul << 38 : 0; bar = new SoDa::Barrier("bar", n); int blocked = vt_run(T, few, 0, sym_param(3)); sym_assert(returned == 0 && blocked == T, "nobody returns before all waiters of the round have called"); sym_observe(blocked); sym_cover("too few"); }
extern "C" void sym_main() {
  if (sym_param(0) == 0 && sym_param(1) == 2) { any_number(); return; }
  if (sym_param(0) == 0) { limits(); return; }
  N = sym_param(0); T = sym_param(1); R = sym_param(2); called = returned = thrown = 0; early = uneven = false; for (int i = 0; i < 21; i++) { done[i] = entered[i] = 0; lim[i] = sym_param(4) == 1 ? 1ul << 38 : sym_param(4) == 2 && i < T && sym_choice(2) ? 1ul << 38 : 0; }
  vt_deviations((int)sym_param(6) - 1); bar = new SoDa::Barrier("bar", N); int blocked = vt_run(T, thread, 0, sym_param(3));
  if (sym_param(5) == 1) { sym_assert(!early, "nobody returns before all waiters of the round have called"); sym_assert(!uneven, "a thread passes a round only after every thread entered it"); sym_assert(returned % N == 0, "a round releases exactly its waiters"); }
  else { if (T == N || T * R % N == 0) { bool all = T == N; if (all) { sym_assert(blocked == 0, "nobody stays blocked"); sym_assert(returned == T * R, "everyone is released"); } else sym_assert(returned >= called - called % N, "complete rounds are released"); } sym_assert(returned == called - called % N, "each complete round is released"); sym_assert(thrown == 0, "no exception"); }
  sym_observe(returned); sym_observe(blocked); if (returned) sym_cover("released"); if (!blocked) { delete bar; sym_cover("all done"); }
}

// B03: expiring limits.  param(0) = waiters N, param(1) = threads, param(2) = digits: limit of each thread (0 none, k any number of 1..2^(2k) ms), first thread first with a leading 1; param(3) = waits per thread (a thread stops after an exception), param(4) = spurious wake-ups, param(5) = late arrivals after everything settled; param(6) = 0 every schedule, 1 + k those that depart at most k times from the round-robin order; with more than 8 threads param(2) is the one with a limit (99: all)
#include "ref.hpp"
#include "Barrier.hxx"
#include "vt.h"
// (not static: see M04.cpp)
SoDa::Barrier *bar; int N, T, R, called, normal, timeouts, corrupts, foreign, lateNormal; bool seenTimeout, lateOk, early; unsigned long lim[21];
static int once(SoDa::Barrier *bar, unsigned long l) { try { if (l) bar->wait(l); else bar->wait(); return 0; } catch (SoDa::Exception &e) { return dynamic_cast<SoDa::Barrier::Timeout *>(&e) ? 1 : dynamic_cast<SoDa::Barrier::Corrupt *>(&e) ? 2 : 3; } catch (...) { return 3; } }
static void note(int r, bool after, unsigned long l, int64_t start) { if (r == 1 && (l == 0 || (uint64_t)(vt_now_ns() - start) < l * 1000000)) early = true;  if (r == 0) { normal++; if (after) lateOk = false; } else if (r == 1) { timeouts++; if (after) lateOk = false; seenTimeout = true; if (vt_timeouts() == 0) early = true; } else if (r == 2) { corrupts++; if (!vt_timeouts()) early = true; } else foreign++; }
static void thread(int t, void *) { __hb_off(); for (int k = 0; k < R; k++) { called++; bool after = seenTimeout; unsigned long l = lim[t]; SoDa::Barrier *b = bar; int64_t start = vt_now_ns(); __hb_on(); int r = once(b, l); __hb_off(); note(r, after, l, start); if (r == 1 || r == 3) break; } __hb_on(); }
static void late(int, void *) { __hb_off(); SoDa::Barrier *b = bar; __hb_on(); int r = once(b, 0); __hb_off(); if (r != 2) lateNormal++; __hb_on(); }
extern "C" void sym_main() {
  N = sym_param(0); T = sym_param(1); R = sym_param(3); called = normal = timeouts = corrupts = foreign = lateNormal = 0; seenTimeout = early = false; lateOk = true; bar = new SoDa::Barrier("bar", N); uint64_t p = sym_param(2); for (int t = T - 1; t >= 0; t--) { unsigned k = T > 8 ? (p == (uint64_t)t || p == 99) : p % 10; if (T <= 8) p /= 10; lim[t] = k ? 1 + (sym_u64() & ((1ull << 2 * k) - 1)) : 0; }
  vt_deviations((int)sym_param(6) - 1); int blocked = vt_run(T, thread, 0, sym_param(4));
  sym_assert(foreign == 0, "only the barrier's own exceptions, as the library's exception type"); sym_assert(timeouts <= 1, "at most one waiter gets the time-out"); sym_assert(!early, "no exception before a limit expires");
  sym_assert(normal % N == 0, "a round is released as a whole or not at all"); sym_assert(lateOk, "after the time-out nobody returns normally"); sym_assert(corrupts == 0 || timeouts == 1, "corrupt only after a time-out"); 
  if (timeouts) { sym_assert(blocked == 0, "nobody stays blocked after a time-out"); sym_assert(normal + timeouts + corrupts == called, "everyone else gets the corrupt exception"); sym_cover("timed out"); if (corrupts) sym_cover("corrupt"); }
  if (normal) sym_cover("released");
  if (timeouts && !blocked) { vt_run(sym_param(5), late, 0, 0); sym_assert(lateNormal == 0, "later waits get the corrupt exception"); if (sym_param(5)) sym_cover("late"); }
  sym_observe(normal); sym_observe(timeouts); sym_observe(corrupts); if (!blocked) delete bar;
}

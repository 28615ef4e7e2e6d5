// B04: barriers are independent.  param(0), param(1) = waiters of the two barriers, param(2), param(3) = threads on each, param(4) = rounds, param(5): limit of the first thread (0 none, else any number of 1..4^k ms), param(6) = 0 every schedule, 1 + k those that depart at most k times from round-robin
#include "ref.hpp"
#include "Barrier.hxx"
#include "vt.h"
SoDa::Barrier *bar[2]; int N[2], T[2], R, called[2], returned[2], bad[2], timeouts[2], corrupts[2], foreign; bool early[2]; unsigned long lim;
static void thread(int t, void *) { __hb_off(); int w = t < T[0] ? 0 : 1; unsigned long l = t == 0 ? lim : 0; for (int k = 0; k < R; k++) { called[w]++; SoDa::Barrier *b = bar[w]; __hb_on(); int r = 0; try { if (l) b->wait(l); else b->wait(); } catch (SoDa::Barrier::Timeout &) { r = 1; } catch (SoDa::Barrier::Corrupt &) { r = 2; } catch (...) { r = 3; } __hb_off();
    if (r == 0) { returned[w]++; if (returned[w] > N[w] * (called[w] / N[w])) early[w] = true; } else if (r == 1) timeouts[w]++; else if (r == 2) corrupts[w]++; else foreign++; if (r) break; } __hb_on(); }
extern "C" void sym_main() {
  for (int w = 0; w < 2; w++) { N[w] = sym_param(w); T[w] = sym_param(2 + w); called[w] = returned[w] = bad[w] = timeouts[w] = corrupts[w] = 0; early[w] = false; } foreign = 0; R = sym_param(4); lim = sym_param(5) ? 1 + (sym_u64() & ((1ull << 2 * sym_param(5)) - 1)) : 0; vt_deviations((int)sym_param(6) - 1); 
  std::string nm = sym_choice(2) ? "bar" : "other"; bar[0] = new SoDa::Barrier("bar", N[0]); bar[1] = new SoDa::Barrier(nm, N[1]); int blocked = vt_run(T[0] + T[1], thread, 0, 0);
  for (int w = 0; w < 2; w++) { sym_assert(!early[w] && returned[w] % N[w] == 0, "each barrier releases only its own rounds"); if (w == 1 || !lim) { sym_assert(timeouts[w] == 0 && corrupts[w] == 0, "no time-out and no corruption from the other barrier"); sym_assert(returned[w] == called[w] - called[w] % N[w], "each complete round is released"); if (T[w] == N[w]) sym_assert(returned[w] == T[w] * R, "everyone is released"); } }
  sym_assert(foreign == 0 && timeouts[0] <= 1, "at most one time-out"); if (timeouts[0]) { sym_assert(returned[0] + timeouts[0] + corrupts[0] == called[0], "the timed-out barrier fails for its own waiters"); sym_cover("timed out"); } if (returned[0] && returned[1]) sym_cover("both released"); sym_observe(returned[0]); sym_observe(returned[1]); if (!blocked) { delete bar[0]; delete bar[1]; } sym_cover("done");
}

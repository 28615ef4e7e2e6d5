// M04: threads on one mailbox, every interleaving of every program.
//  param(0) = number of threads, param(1) = operations per thread, param(2) = messages put beforehand, param(3) = bit set of the operations to choose from,
//  param(4) = first operation of thread 0 (99: chosen too), param(5) = the operation thread 1 begins with (99: chosen too)
//  operations: 1 put  2 put omitting the own subscription  3 get own  4 get shared  5 count own  6 count shared  7 clear own  8 end own and start anew  9 smallest count  0 subscriber count
//  subscription 0 is shared, thread t owns subscription t+1
#include "mail.hpp"
#include "vt.h"
struct Op { int kind, sub, msg, res, inv, ret; };
// (not static: the compiler may then not move accesses across __hb_on/__hb_off, which keep the harness's own bookkeeping out of the race check)
Box *box; Sub *subs[6], *subs2[22]; Op ops[12]; int nops, clk, prog[4][8], plen[4], nthr;
static Msg *const NONE = 0;
static void thread(int t, void *) {
  __hb_off();
  for (int i = 0; i < plen[t]; i++) { int k = prog[t][i]; Op &o = ops[nops++]; o.kind = k; o.sub = (k == 4 || k == 6) ? 0 : t + 1; o.msg = (int)(t * 4 + i); o.ret = 1000; o.res = -5; o.inv = clk++; Sub &own = *subs[t + 1], &sh = *subs[0]; Box *box = ::box; int id = o.msg; __hb_on();
    int r = 0; std::shared_ptr<Msg> m;
    switch (k) { case 1: box->put(std::make_shared<Msg>(1u, id)); break; case 2: box->put(std::make_shared<Msg>(1u, id), own); break;
      case 3: m = box->get(own); r = m ? m->id : -1; break; case 4: m = box->get(sh); r = m ? m->id : -1; break; case 5: r = box->readyCount(own); break; case 6: r = box->readyCount(sh); break;
      case 7: box->clear(own); break; case 8: own.reset(); own = box->subscribe(); break; case 9: r = box->minReadyCount(); break; default: r = box->subscriberCount(); }
    m.reset(); __hb_off(); o.res = r; o.ret = clk++; }
  __hb_on(); }
// is there an order of the operations, compatible with real time, that explains all results and the final contents?  (ending and restarting a subscription counts as two steps)
struct RS { bool live[6]; int n[6], q[6][12]; };
static int fin[6][12], finN[6];
static bool step(RS &s, const Op &o, int part) { switch (o.kind) { case 1: case 2: for (int k = 0; k <= nthr; k++) if (s.live[k] && !(o.kind == 2 && k == o.sub)) s.q[k][s.n[k]++] = o.msg; return true;
  case 3: case 4: { int &n = s.n[o.sub]; if (n == 0) return o.res == -1; if (o.res != s.q[o.sub][0]) return false; for (int i = 1; i < n; i++) s.q[o.sub][i - 1] = s.q[o.sub][i]; n--; return true; }
  case 5: case 6: return o.res == s.n[o.sub]; case 7: s.n[o.sub] = 0; return true; case 8: if (part == 0) s.live[o.sub] = false; else s.live[o.sub] = true; s.n[o.sub] = 0; return true;
  case 9: { int mn = 1000; for (int k = 0; k <= nthr; k++) if (s.live[k] && s.n[k] < mn) mn = s.n[k]; return o.res == mn; }
  default: { int c = 0; for (int k = 0; k <= nthr; k++) c += s.live[k]; return o.res == c; } } }
static bool search(const RS &s, int *done) { bool all = true; int first = 1 << 30; for (int i = 0; i < nops; i++) { int need = ops[i].kind == 8 ? 2 : 1; if (done[i] < need) { all = false; if (ops[i].ret < first) first = ops[i].ret; } }
  if (all) { for (int k = 0; k <= nthr; k++) { if (s.n[k] != finN[k]) return false; for (int i = 0; i < s.n[k]; i++) if (s.q[k][i] != fin[k][i]) return false; } return true; }
  for (int i = 0; i < nops; i++) { int need = ops[i].kind == 8 ? 2 : 1; if (done[i] >= need || ops[i].inv > first) continue; RS t = s; if (!step(t, ops[i], done[i])) continue; done[i]++; if (search(t, done)) { done[i]--; return true; } done[i]--; }
  return false; }
// param(0) = 100 + threads: each puts param(1) messages, takes from its own and from the shared subscription after each, in the schedules that depart at most param(2) times from the round-robin order
std::vector<int> *own[20], *shared[20]; int K;
static void busy(int t, void *) { for (int i = 0; i < K; i++) { __hb_off(); Sub &mine = *subs2[t + 1], &sh = *subs2[0]; Box *box = ::box; int id = 1000 + t * K + i; __hb_on(); if (i % 3 == 2) box->put(std::make_shared<Msg>(1u, id), sh); else box->put(std::make_shared<Msg>(1u, id)); std::shared_ptr<Msg> a, b; if (i % 2) a = box->get(mine); b = box->get(sh); __hb_off(); if (a) own[t]->push_back(a->id - 1000); if (b) shared[t]->push_back(b->id - 1000); __hb_on(); a.reset(); b.reset(); } }
static void stress() { int T = sym_param(0) - 100; K = sym_param(1); vt_deviations(sym_param(2)); gone.assign(T * K, 0); doomed = 0; box = new Box("box"); for (int k = 0; k <= T; k++) { subs2[k] = new Sub(); *subs2[k] = box->subscribe(); } for (int t = 0; t < T; t++) { own[t] = new std::vector<int>(); shared[t] = new std::vector<int>(); }
  int blocked = vt_run(T, busy, 0, 0); sym_assert(blocked == 0, "no operation blocks forever"); if (blocked) return;
  std::vector<int> pos(T * K, -1), seen(T * K, 0); for (int t = 0; t < T; t++) { while (true) { auto m = box->get(*subs2[t + 1]); if (!m) break; own[t]->push_back(m->id - 1000); } sym_assert(own[t]->size() == (size_t)T * K, "every message reaches every subscription once"); for (size_t i = 0; i < own[t]->size(); i++) { int m = (*own[t])[i]; if (t == 0) { sym_assert(pos[m] < 0, "no message twice"); pos[m] = (int)i; } else sym_assert(pos[m] == (int)i, "every subscription sees the same order"); } }
  for (int t = 0; t < T; t++) for (int i = 1; i < K; i++) sym_assert(pos[t * K + i - 1] < pos[t * K + i], "the messages of one thread stay in order");
  int n = 0; for (int t = 0; t < T; t++) { int last = -1; for (int m : *shared[t]) { n++; sym_assert(m % K % 3 != 2 && seen[m]++ == 0, "a shared message goes to one reader"); sym_assert(pos[m] > last, "in order"); last = pos[m]; } } int last = -1; while (true) { auto m = box->get(*subs2[0]); if (!m) break; int x = m->id - 1000; n++; sym_assert(x % K % 3 != 2 && seen[x]++ == 0 && pos[x] > last, "a shared message goes to one reader"); last = pos[x]; }
  sym_assert(n == T * (K - K / 3), "every message reaches the shared subscription"); sym_observe(n); for (int k = 0; k <= T; k++) delete subs2[k]; delete box; sym_assert(doomed == 0, "no message destroyed twice"); for (int g : gone) sym_assert(g == 1, "every message is destroyed exactly once"); sym_cover("ran"); sym_cover("shared read"); }
extern "C" void sym_main() {
  if (sym_param(0) > 100) { stress(); return; }
  nthr = sym_param(0); nops = clk = 0; for (auto &d : destroyed) d = 0; doomed = 0; int pre = sym_param(2), len = sym_param(1); int al[10], na = 0; for (int k = 0; k < 10; k++) if (sym_param(3) >> k & 1) al[na++] = k;
  for (int t = 0; t < nthr; t++) { plen[t] = len; for (int i = 0; i < len; i++) prog[t][i] = i == 0 && t < 2 && sym_param(4 + t) != 99 ? (int)sym_param(4 + t) : al[sym_choice(na)]; }
  box = new Box("box"); for (int k = 0; k <= nthr; k++) { subs[k] = new Sub(); *subs[k] = box->subscribe(); }
  for (int i = 0; i < pre; i++) box->put(std::make_shared<Msg>(1u, 24 + i));
  int blocked = vt_run(nthr, thread, 0, 0);
  sym_assert(blocked == 0, "no operation blocks forever"); if (blocked) return;
  for (int k = 0; k <= nthr; k++) { finN[k] = 0; while (true) { auto m = box->get(*subs[k]); if (!m) break; if (finN[k] < 12) fin[k][finN[k]++] = m->id; } }
  RS s; for (int k = 0; k < 6; k++) { s.live[k] = k <= nthr; s.n[k] = 0; } for (int k = 0; k <= nthr; k++) for (int i = 0; i < pre; i++) s.q[k][s.n[k]++] = 24 + i;
  int done[12] = {0}; sym_assert(search(s, done), "some one-at-a-time order explains every result");
  for (int i = 0; i < nops; i++) { sym_observe(ops[i].res); if (ops[i].kind == 4 && ops[i].res >= 0) sym_cover("shared read"); }
  for (int k = 0; k <= nthr; k++) delete subs[k]; delete box; sym_assert(doomed == 0, "no message destroyed twice");
  for (int i = 0; i < nops; i++) if (ops[i].kind == 1 || ops[i].kind == 2) sym_assert(destroyed[ops[i].msg] == 1, "every message is destroyed exactly once");
  sym_cover("ran");
}

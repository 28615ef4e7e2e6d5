// M01 delivery, M02 independence, M03 lifetime: every history of param(0) operations on one mailbox with up to three subscriptions.
// param(1) = kind of the first operation plus one (0 = any), param(2) = what is compared: 1 deliveries and counts, 2 nothing left behind (M02), 3 lifetimes; param(3) = number of initial subscriptions
#include "mail.hpp"
static const int MAXS = 3;
// param(2) = 10: two mailboxes, mismatched use; 11: conversions of the mailbox pointer
typedef SoDa::MailBox<int> IntBox;
template <class F> static bool raises(F f) { try { f(); } catch (SoDa::MailBoxBase::Exception &e) { return true; } return false; }
static void boxes(int kind) {
  if (kind == 0) { Box A("A"), B(sym_choice(2) ? "A" : "B"); Sub a = A.subscribe(), a2 = A.subscribe(), b = B.subscribe(); unsigned na = sym_choice(3), nb = sym_choice(3); uint32_t p = sym_u32(); sym_assume(p < 0xdead0000u);
    for (unsigned i = 0; i < na; i++) A.put(std::make_shared<Msg>(p + i, (int)i)); for (unsigned i = 0; i < nb; i++) B.put(std::make_shared<Msg>(p + 100 + i, (int)(10 + i)));
    for (int k = 0; k < 2; k++) { unsigned op = sym_choice(4); bool r = false; switch (op) {
      case 0: r = raises([&] { A.get(b); }); break; case 1: r = raises([&] { A.put(std::make_shared<Msg>(7u, 20), b); }); break; case 2: r = raises([&] { A.clear(b); }); break; default: r = raises([&] { A.readyCount(b); }); }
      sym_assert(r, "a foreign subscription raises the mailbox exception"); sym_cover("raised"); }
    sym_assert(A.readyCount(a) == na && A.readyCount(a2) == na && B.readyCount(b) == nb && A.subscriberCount() == 2 && B.subscriberCount() == 1, "nothing changed"); 
    for (unsigned i = 0; i < na; i++) { auto m = A.get(a), m2 = A.get(a2); sym_assert(m && m2 && m == m2 && m->payload == p + i, "messages of the first mailbox"); } for (unsigned i = 0; i < nb; i++) { auto m = B.get(b); sym_assert(m && m->payload == p + 100 + i, "messages of the second mailbox"); }
    sym_assert(!A.get(a) && !B.get(b), "nothing more"); sym_observe(na * 10 + nb); }
  else { std::shared_ptr<SoDa::MailBoxBase> pa = SoDa::makeMailBox<Msg>("A"), pi = SoDa::makeMailBox<int>("I"); 
    auto ca = SoDa::MailBoxBase::convert<Box>(pa); sym_assert(ca && ca.get() == pa.get() && ca->getName() == "A", "the same mailbox"); auto s = ca->subscribe(); ca->put(std::make_shared<Msg>(5u, 0)); sym_assert(ca->readyCount(s) == 1, "usable"); s.reset();
    sym_assert(SoDa::MailBoxBase::convert<IntBox>(pi).get() == pi.get(), "the same mailbox"); 
    sym_assert(raises([&] { SoDa::MailBoxBase::convert<IntBox>(pa); }), "wrong message type"); sym_assert(raises([&] { SoDa::MailBoxBase::convert<Box>(pi); }), "wrong message type"); sym_observe(1); sym_cover("raised"); }
  sym_cover("done");
}
// 20 + what: long histories. param(0) subscriptions, param(1) messages (further subscriptions come and go between them, param(3) altogether), each subscription taking at a pace of its own; at one of a few moments one of them is cleared, ended or newly begun
static void lengthy(unsigned S, unsigned N, unsigned what, unsigned C) { Box *box = new Box("box"); std::vector<Sub> s(S); std::vector<std::vector<int>> q(S); std::vector<size_t> at(S, 0); std::vector<int> claims(N, 0); gone.assign(N, 0); doomed = 0; uint32_t p = sym_u32(); sym_assume(p < 0xdead0000u); std::vector<char> live(S, 1);
  for (unsigned k = 0; k < S; k++) s[k] = box->subscribe(); unsigned when = sym_choice(4), which = sym_choice(3), event = sym_choice(4), v = which == 0 ? 0 : which == 1 ? S / 2 : S - 1; Sub extra; unsigned made = 0;
  auto n = [&](unsigned k) { return q[k].size() - at[k]; }; auto drop = [&](unsigned k) { for (size_t i = at[k]; i < q[k].size(); i++) claims[q[k][i]]--; at[k] = q[k].size(); };
  auto take = [&](unsigned k) { std::shared_ptr<Msg> m = box->get(s[k]); bool any = n(k) > 0; sym_assert((m != nullptr) == any, "a message exactly when one is outstanding"); if (m && any) { int e = q[k][at[k]++]; claims[e]--; sym_assert(m->id == 1000 + e && m->payload == p + (unsigned)e, "the oldest outstanding message"); sym_cover("delivered"); } else sym_cover("nothing to take"); };
  auto check = [&](unsigned upto) { unsigned mn = ~0u, cnt = 0; for (unsigned k = 0; k < S; k++) if (live[k]) { cnt++; if (n(k) < mn) mn = n(k); if (what == 1) sym_assert(box->readyCount(s[k]) == n(k), "outstanding messages of a subscription"); } if (what == 1) { sym_assert(box->subscriberCount() == cnt + (extra ? 1 : 0), "subscriber count"); if (cnt && !extra) sym_assert(box->minReadyCount() == mn, "smallest count"); }
    if (what == 3) { sym_assert(doomed == 0, "no message is destroyed twice"); if (!extra) for (unsigned m = 0; m < upto; m++) sym_assert(gone[m] == (claims[m] ? 0 : 1), "message alive exactly while claimed"); } };
  for (unsigned i = 0; i < N; i++) {
    for (unsigned c = made; c < (uint64_t)C * (i + 1) / N; c++, made++) { Sub t = box->subscribe(); sym_assert(box->readyCount(t) == 0, "a new subscription has nothing outstanding"); if (c % 3 == 0) { extra = std::move(t); } else if (c % 3 == 1) extra.reset(); }
    int omit = i % 4 == 3 ? (int)(i % S) : -1; if (omit >= 0 && !live[omit]) omit = -1; std::shared_ptr<Msg> m = std::make_shared<Msg>(p + i, 1000 + (int)i); if (omit >= 0) box->put(m, s[omit]); else box->put(m); m.reset(); for (unsigned k = 0; k < S; k++) if (live[k] && (int)k != omit) { q[k].push_back(i); claims[i]++; }
    for (unsigned k = 0; k + 1 < S; k++) if (live[k] && i % (k + 2) == 0 && i > N / 2) for (unsigned j = 0; j < 3; j++) take(k);
    if (i == N * when / 4) switch (event) { case 0: break; case 1: if (n(v)) sym_cover("cleared"); box->clear(s[v]); drop(v); break; case 2: if (n(v)) sym_cover("ended with messages"); s[v].reset(); drop(v); live[v] = 0; break; default: s[v].reset(); drop(v); s[v] = box->subscribe(); sym_cover("late subscription"); }
    if (i % (1 + N / 40) == 0) check(i + 1); }
  extra.reset(); check(N); if (what == 3 && sym_choice(2)) { for (auto &x : s) x.release(); delete box; for (unsigned m = 0; m < N; m++) sym_assert(gone[m] == 1, "messages die with the mailbox"); sym_cover("mailbox destroyed"); sym_cover("done"); return; }
  for (unsigned k = 0; k < S; k++) if (live[k]) { while (n(k)) take(k); take(k); } check(N); sym_observe(box->subscriberCount()); for (auto &x : s) x.reset(); sym_assert(box->subscriberCount() == 0, "subscriber count"); delete box; sym_cover("done"); }
extern "C" void sym_main() {
  if (sym_param(2) > 20) { lengthy(sym_param(0), sym_param(1), sym_param(2) - 20, sym_param(3)); return; }
  if (sym_param(2) >= 10) { boxes(sym_param(2) - 10); return; }
  unsigned steps = sym_param(0), what = sym_param(2); int nmsg = 0; for (auto &d : destroyed) d = 0; doomed = 0; uint32_t pay[16];
  Box *box = new Box("box"); Sub s[MAXS]; RefSub r[MAXS]; std::shared_ptr<Msg> held; int heldId = -1;
  for (unsigned k = 0; k < sym_param(3); k++) { s[k] = box->subscribe(); r[k].live = true; }
  auto put = [&](const Sub *from, int omit, std::shared_ptr<Msg> m) { if (from) box->put(m, *from); else box->put(m); for (int k = 0; k < MAXS; k++) if (r[k].live && k != omit) r[k].push(m->id); };
  auto check = [&]() { int live = 0; unsigned mn = ~0u; for (int k = 0; k < MAXS; k++) if (r[k].live) { live++; if ((unsigned)r[k].n < mn) mn = r[k].n; }
    if (what == 1) { sym_assert(box->subscriberCount() == (unsigned)live, "subscriber count"); for (int k = 0; k < MAXS; k++) if (r[k].live) sym_assert(box->readyCount(s[k]) == (unsigned)r[k].n, "outstanding messages of a subscription"); if (live) sym_assert(box->minReadyCount() == mn, "smallest count"); }
    if (what == 3) { sym_assert(doomed == 0, "no message is destroyed twice"); for (int m = 0; m < nmsg; m++) { bool claim = m == heldId; for (int k = 0; k < MAXS; k++) if (r[k].live) for (int i = 0; i < r[k].n; i++) claim |= r[k].q[i] == m; sym_assert(destroyed[m] == (claim ? 0 : 1), claim ? "message alive while claimed" : "message destroyed when the last claim ends"); } } };
  auto take = [&](int k, bool keep) { int e = r[k].pop(); std::shared_ptr<Msg> m = box->get(s[k]); sym_assert((m == nullptr) == (e < 0), "a message exactly when one is outstanding"); if (m && e >= 0) { sym_assert(m->id == e && m->payload == pay[e], "the oldest outstanding message"); sym_cover("delivered"); } if (!m) sym_cover("nothing to take"); if (keep) { held = m; heldId = e; } };
  for (unsigned st = 0; st < steps; st++) {
    // operations possible now: 0 put, then per subscription put-as / get / clear / end or start
    int ops[1 + 4 * MAXS], n = 0; ops[n++] = 0; for (int k = 0; k < MAXS; k++) { if (r[k].live) { ops[n++] = 10 + k; ops[n++] = 20 + k; ops[n++] = 30 + k; ops[n++] = 40 + k; } else { ops[n++] = 50 + k; break; } }
    int op = st == 0 && sym_param(1) ? ops[(sym_param(1) - 1) % n] : ops[sym_choice(n)], k = op % 10;
    switch (op / 10) {
    case 0: case 1: { pay[nmsg] = sym_u32(); sym_assume(pay[nmsg] != 0xdeadbeefu); std::shared_ptr<Msg> m = std::make_shared<Msg>(pay[nmsg], nmsg); nmsg++; if (op) put(&s[k], k, m); else put(nullptr, -1, m); break; }
    case 2: take(k, what == 3); break;
    case 3: box->clear(s[k]); if (r[k].n) sym_cover("cleared"); r[k].n = 0; break;
    case 4: s[k].reset(); if (r[k].n) sym_cover("ended with messages"); r[k].live = false; r[k].n = 0; break;
    default: s[k] = box->subscribe(); r[k].live = true; r[k].n = 0; sym_cover("late subscription"); }
    check(); }
  if (what != 3) { for (int k = 0; k < MAXS; k++) if (r[k].live) { while (r[k].n) take(k, false); take(k, false); } for (int k = 0; k < MAXS; k++) if (r[k].live) sym_observe(box->readyCount(s[k])); }
  else if (sym_choice(2)) { // destroy the mailbox with everything outstanding; the reader's message survives it
    for (int k = 0; k < MAXS; k++) s[k].release(); delete box; box = 0; for (auto &x : r) x.live = false; for (int m = 0; m < nmsg; m++) sym_assert(destroyed[m] == (m == heldId ? 0 : 1), "messages die with the mailbox"); sym_cover("mailbox destroyed"); held.reset(); heldId = -1; for (int m = 0; m < nmsg; m++) sym_assert(destroyed[m] == 1, "the last claim is gone"); }
  else { held.reset(); heldId = -1; check(); for (int k = 0; k < MAXS; k++) if (s[k]) { s[k].reset(); r[k].live = false; } check(); }
  sym_observe(nmsg); sym_cover("done"); for (int k = 0; k < MAXS; k++) s[k].reset(); delete box;
}

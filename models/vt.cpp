// Scheduler and pthread model.  Every decision is a __sym_choice, i.e. a symbolic variable.
#include "sym.h"
#include "vt.h"
#include <pthread.h>
#include <time.h>
#include <errno.h>
#include <sched.h>
enum { RUN, BLK_MUTEX, BLK_COND, BLK_CONDT, DONE, BLK_SLEEP };
static const int MAXT = 21;
struct TS { int st; pthread_mutex_t *m; pthread_cond_t *c; int64_t deadline; bool timed_out, signalled; };
static TS vt_nr_t[MAXT]; static int vt_nr_n, vt_nr_spur, vt_nr_last, vt_nr_timeouts; static int64_t vt_nr_now; static bool vt_nr_active; static int vt_nr_left; static int vt_nr_dev = -1, vt_nr_prev;   // vt_nr_dev: how often a run may still depart from the round-robin order (-1: always)
static vt_fn vt_nr_fn; static void *vt_nr_arg;
// virtual time is kept in nanoseconds
static const int64_t NEVER = INT64_MAX, BAD = INT64_MIN; static const int64_t PRACTICALLY_NEVER = 900LL * 24 * 3600 * 1000000000LL, START = 1000000000LL;
struct MX { int owner; int depth; };
static MX *mx(pthread_mutex_t *m) { return (MX *)m; }
static bool recursive(pthread_mutex_t *m) { return ((int *)m)[4] == 1; } // PTHREAD_MUTEX_RECURSIVE in glibc's layout; depth counts the extra locks         // owner+1 in the first word (0 = free)
static bool runnable(int i) { TS &t = vt_nr_t[i]; return t.st == RUN || (t.st == BLK_MUTEX && mx(t.m)->owner == 0); }
static void pick() { // choose who runs next: a runnable thread, an expiring timeout or a spurious wake-up
  while (true) {
    int cand[3 * MAXT], k = 0; 
    if (vt_nr_last >= 0 && runnable(vt_nr_last)) cand[k++] = vt_nr_last;     // first choice: go on with the same thread
    for (int j = 1; j <= vt_nr_n; j++) { int i = vt_nr_dev < 0 ? j : (vt_nr_prev + j - 1) % vt_nr_n + 1; if (i != vt_nr_last && runnable(i)) cand[k++] = i; }
    // the earliest finite deadline may expire (time may pass at any point)
    int64_t best = NEVER; for (int i = 1; i <= vt_nr_n; i++) { TS &t = vt_nr_t[i]; if ((t.st == BLK_CONDT || t.st == BLK_SLEEP) && t.deadline < best) best = t.deadline; }
    if (best != NEVER && best - vt_nr_now < PRACTICALLY_NEVER) for (int i = 1; i <= vt_nr_n; i++) { TS &t = vt_nr_t[i]; if ((t.st == BLK_CONDT || t.st == BLK_SLEEP) && t.deadline == best) cand[k++] = 100 + i; }
    if (vt_nr_spur > 0) for (int i = 1; i <= vt_nr_n; i++) if (vt_nr_t[i].st == BLK_COND || vt_nr_t[i].st == BLK_CONDT) cand[k++] = 200 + i;
    if (k == 0) { vt_nr_last = -1; __vt_switch(0); return; }                 // finished or deadlocked: back to main
    int x = k == 1 || vt_nr_dev == 0 ? 0 : sym_choice(k); if (x && vt_nr_dev > 0) vt_nr_dev--; int c = cand[x];
    if (c >= 200) { vt_nr_spur--; TS &t = vt_nr_t[c - 200]; t.st = BLK_MUTEX; t.signalled = false; vt_nr_last = -1; continue; }
    if (c >= 100) { TS &t = vt_nr_t[c - 100]; if (t.deadline > vt_nr_now) vt_nr_now = t.deadline; t.timed_out = true; if (t.st == BLK_SLEEP) t.st = RUN; else { t.st = BLK_MUTEX; vt_nr_timeouts++; } vt_nr_last = -1; continue; }
    vt_nr_last = vt_nr_prev = c; if (c != __vt_self()) __vt_switch(c);
    return;
  }
}
static int self() { return __vt_self(); }
static void tmain(void *) { __hb_off(); int i = self(); __hb_on(); vt_nr_fn(i - 1, vt_nr_arg); __hb_off(); vt_nr_t[i].st = DONE; while (true) pick(); }
int vt_run(int n, vt_fn fn, void *arg, int spurious) {
  vt_nr_prev = 0; vt_nr_n = n; vt_nr_fn = fn; vt_nr_arg = arg; vt_nr_spur = spurious; vt_nr_now = START; vt_nr_timeouts = 0; vt_nr_last = -1;
  for (int i = 0; i < MAXT; i++) { vt_nr_t[i].st = RUN; vt_nr_t[i].m = 0; vt_nr_t[i].c = 0; vt_nr_t[i].deadline = 0; vt_nr_t[i].timed_out = false; }
  __vt_race(1); __hb_off();
  for (int i = 1; i <= n; i++) __vt_create(tmain, 0);
  vt_nr_active = true; pick(); vt_nr_active = false;
  int blocked = 0; for (int i = 1; i <= n; i++) { if (vt_nr_t[i].st != DONE) blocked++; else __hb_join(i); }
  __hb_on(); __vt_race(0); __vt_drop();
  return blocked;
}
void vt_deviations(int n) { vt_nr_dev = n; }
int64_t vt_now_ns() { return vt_nr_now - START; } int vt_timeouts() { return vt_nr_timeouts; } bool vt_running() { return vt_nr_active; }
extern "C" {
void vt_yield(void) { if (!vt_nr_active || self() == 0) return; __hb_off(); pick(); __hb_on(); }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { mx(m)->owner = 0; mx(m)->depth = 0; ((int *)m)[4] = 0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (mx(m)->owner != 0 && vt_nr_active) __sym_fail("mutex destroyed while locked"); return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) {
  int me = self(); if (!vt_nr_active || me == 0) { if (mx(m)->owner == 1000 && recursive(m)) { mx(m)->depth++; return 0; } if (mx(m)->owner != 0) __sym_fail("deadlock: the only thread locks a locked mutex"); mx(m)->owner = 1000; return 0; }
  __hb_off(); TS &t = vt_nr_t[me]; if (mx(m)->owner == me && recursive(m)) { mx(m)->depth++; __hb_on(); return 0; }
  if (mx(m)->owner == me) { t.st = BLK_MUTEX; t.m = m; }                    // self deadlock: blocks forever
  else { t.st = BLK_MUTEX; t.m = m; }
  pick(); t.st = RUN; mx(m)->owner = me; __hb_on(); __hb_acquire(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { int me = self(); bool one = !vt_nr_active || me == 0; if (one) me = 1000; else vt_yield(); __hb_off();
  if (mx(m)->owner == me && recursive(m)) { mx(m)->depth++; __hb_on(); return 0; } if (mx(m)->owner != 0) { __hb_on(); return EBUSY; } mx(m)->owner = me; __hb_on(); if (!one) __hb_acquire(m); return 0; }
// a timed lock either gives up or behaves like a lock (giving up is possible whenever the mutex is held)
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { int r = pthread_mutex_trylock(m); if (r != EBUSY) return r; bool one = !vt_nr_active || self() == 0; if (one || sym_choice(2)) return ETIMEDOUT; return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *ts) { return pthread_mutex_timedlock(m, ts); }
int pthread_mutex_unlock(pthread_mutex_t *m) { int me = self(); bool one = !vt_nr_active || me == 0; if (recursive(m) && mx(m)->depth > 0 && (one || mx(m)->owner == me)) { mx(m)->depth--; return 0; } if (one) { mx(m)->owner = 0; return 0; } __hb_release(m); __hb_off(); if (mx(m)->owner != me) __sym_fail("unlock of a mutex the thread does not hold"); mx(m)->owner = 0; __hb_on(); return 0; }
int pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
static int condwait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline) {
  if (deadline == BAD) return EINVAL;
  int me = self(); if (!vt_nr_active || me == 0) { if (deadline == NEVER) __sym_fail("the only thread waits forever"); return ETIMEDOUT; }
  __hb_release(m); __hb_off(); TS &t = vt_nr_t[me]; if (mx(m)->owner != me) __sym_fail("condition wait without holding the mutex");
  mx(m)->owner = 0; t.m = m; t.c = c; t.timed_out = false; t.signalled = false; t.deadline = deadline;
  t.st = deadline == NEVER ? BLK_COND : BLK_CONDT;
  if (deadline <= vt_nr_now) { t.timed_out = true; t.st = BLK_MUTEX; vt_nr_timeouts++; }
  pick(); t.st = RUN; mx(m)->owner = me; bool to = t.timed_out; __hb_on(); __hb_acquire(m); return to ? ETIMEDOUT : 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return condwait(c, m, NEVER); }
static int64_t tms(const struct timespec *ts) { int64_t s = ts->tv_sec; if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return BAD; if (s >= INT64_MAX / 1000000000) return NEVER - 1; if (s < 0) return 0; return s * 1000000000 + ts->tv_nsec; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return condwait(c, m, tms(ts)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) { return condwait(c, m, tms(ts)); }
int pthread_cond_broadcast(pthread_cond_t *c) { int me = self(); if (!vt_nr_active || me == 0) return 0; __hb_off(); for (int i = 1; i <= vt_nr_n; i++) { TS &t = vt_nr_t[i]; if ((t.st == BLK_COND || t.st == BLK_CONDT) && t.c == c) { t.st = BLK_MUTEX; t.signalled = true; } } __hb_on(); return 0; }
int pthread_cond_signal(pthread_cond_t *c) { int me = self(); if (!vt_nr_active || me == 0) return 0; __hb_off(); int w[MAXT], k = 0; for (int i = 1; i <= vt_nr_n; i++) { TS &t = vt_nr_t[i]; if ((t.st == BLK_COND || t.st == BLK_CONDT) && t.c == c) w[k++] = i; } if (k) { int i = w[k == 1 || vt_nr_dev == 0 ? 0 : sym_choice(k)]; if (vt_nr_dev > 0 && i != w[0]) vt_nr_dev--; vt_nr_t[i].st = BLK_MUTEX; vt_nr_t[i].signalled = true; } __hb_on(); return 0; }
int sched_yield(void) { vt_yield(); return 0; }
int nanosleep(const struct timespec *ts, struct timespec *) { int me = self(); if (!vt_nr_active || me == 0) return 0; __hb_off(); TS &t = vt_nr_t[me]; t.deadline = vt_nr_now + tms(ts); t.timed_out = false; t.st = BLK_SLEEP; pick(); t.st = RUN; __hb_on(); return 0; }
int clock_gettime(clockid_t, struct timespec *ts) { __hb_off(); int64_t n = vt_nr_now; __hb_on(); ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *ts, struct timespec *r) { return nanosleep(ts, r); }
int usleep(unsigned us) { struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&ts, 0); }
}

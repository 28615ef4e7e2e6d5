// Cooperative threads shared by the symbolic build and the native replay.
#pragma once
#include <stdint.h>
extern "C" {
int __vt_create(void (*fn)(void *), void *arg);
void __vt_switch(int t);
int __vt_self(void);
void __vt_race(int on);
void __vt_drop(void);
void __hb_off(void); void __hb_on(void);
void __hb_acquire(const void *); void __hb_release(const void *); void __hb_join(int t);
void __vt_visited(void);
void vt_yield(void);
}
// Runs n threads under every schedule; returns the number of threads that are blocked forever.
// spurious: how many spurious wake-ups may be injected over the run.
typedef void (*vt_fn)(int index, void *arg);
int vt_run(int n, vt_fn fn, void *arg, int spurious);
// explore only the schedules that depart at most n times from the round-robin order without preemption (-1: all schedules)
void vt_deviations(int n);
// virtual time in nanoseconds since the start (advanced only when a timed wait expires)
int64_t vt_now_ns();
int vt_timeouts();            // number of timed waits that have expired so far
bool vt_running();

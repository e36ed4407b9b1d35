// Force-included into concurrent harnesses: the pthread calls made by libstdc++'s inline code go to the scheduler model (rt_sched.cpp).
#pragma once
#define pthread_mutex_lock psx_mutex_lock
#define pthread_mutex_trylock psx_mutex_trylock
#define pthread_mutex_unlock psx_mutex_unlock
#define pthread_mutex_timedlock psx_mutex_timedlock
#define pthread_mutex_clocklock psx_mutex_clocklock
#define pthread_rwlock_rdlock psx_rwlock_rdlock
#define pthread_rwlock_tryrdlock psx_rwlock_tryrdlock
#define pthread_rwlock_wrlock psx_rwlock_wrlock
#define pthread_rwlock_trywrlock psx_rwlock_trywrlock
#define pthread_rwlock_unlock psx_rwlock_unlock
#define pthread_cond_timedwait psx_cond_timedwait
#define pthread_cond_clockwait psx_cond_clockwait
#define pthread_once psx_once
#define pthread_self psx_pthread_self
#ifdef __cplusplus
extern "C" {
void psx_yield();          // scheduling point
void psx_drain();          // wait until every other thread has ended
void psx_sched(int preemptions, int spurious, int ticks, int races);   // bounds: preemptions (-1: none), spurious wake-ups, spontaneous clock advances; whether data races are looked for
void psx_quiesce();        // wait until no other thread can go on (timed waits with a future deadline aside)
void psx_settle();         // wait until no other thread can go on and no timed wait is outstanding
void psx_await(unsigned* p, unsigned v);  // wait until *p != v
void psx_horizon(long t);  // no timed wait with a deadline beyond t times out
long psx_now();            // virtual clock, ns
unsigned psx_tid();
void psx_fail_start(long n);   // the n-th thread start from now on fails (counted from 0; -1: none)
long psx_starts_left();        // -1 once it has failed
}
#endif

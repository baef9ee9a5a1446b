#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "ctl_sched.h"
using namespace sched;
#define REAL(name) static auto f = real<decltype(&name)>(#name)
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_lock);
    if (!t_sched) return f(m);
    static auto t = real<decltype(&pthread_mutex_trylock)>("pthread_mutex_trylock");
    return controlled_lock(m, [&] { return t(m); });
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_trylock);
    if (t_sched) Scheduler::yield();
    return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_unlock);
    if (!t_sched) return f(m);
    return controlled_unlock(m, f(m));
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    REAL(pthread_rwlock_rdlock);
    if (!t_sched) return f(m);
    static auto t = real<decltype(&pthread_rwlock_tryrdlock)>("pthread_rwlock_tryrdlock");
    return controlled_lock(m, [&] { return t(m); });
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    REAL(pthread_rwlock_wrlock);
    if (!t_sched) return f(m);
    static auto t = real<decltype(&pthread_rwlock_trywrlock)>("pthread_rwlock_trywrlock");
    return controlled_lock(m, [&] { return t(m); });
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    REAL(pthread_rwlock_unlock);
    if (!t_sched) return f(m);
    return controlled_unlock(m, f(m));
}
int pthread_spin_lock(pthread_spinlock_t* m)
{
    REAL(pthread_spin_lock);
    if (!t_sched) return f(m);
    static auto t = real<decltype(&pthread_spin_trylock)>("pthread_spin_trylock");
    return controlled_lock((void*)m, [&] { return t(m); });
}
int pthread_spin_unlock(pthread_spinlock_t* m)
{
    REAL(pthread_spin_unlock);
    if (!t_sched) return f(m);
    return controlled_unlock((void*)m, f(m));
}
int sched_yield(void)
{
    REAL(sched_yield);
    if (t_sched) { Scheduler::yield(); return 0; }
    return f();
}
}

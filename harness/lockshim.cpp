// Linked into the single-threaded drivers with -Wl,--wrap=...: a lock that is taken already can never be granted to the
// only thread there is, so waiting for it is a deadlock. This is a logical verdict, no clock is involved.
#include <pthread.h>
#include <cerrno>
#include "vf.hpp"
namespace vf { uint64_t mutex_acquisitions = 0; long locks_held = 0; }
extern "C" {
int __real_pthread_mutex_trylock(pthread_mutex_t*);
static unsigned long busy = 0;
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    int r = __real_pthread_mutex_trylock(m);
    if (r == EBUSY) vf::fail("deadlock: the only thread waits for a mutex it holds itself");
    ++vf::mutex_acquisitions;
    busy = 0;
    if (r == 0) ++vf::locks_held;
    return r;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    int r = __real_pthread_mutex_trylock(m);
    if (r != EBUSY) busy = 0;
    if (r == 0) ++vf::locks_held;
    else if (++busy > 1000000) vf::fail("livelock: the only thread retries for ever to lock a mutex it holds itself");
    return r;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    int r = pthread_rwlock_tryrdlock(m);
    if (r == EBUSY) vf::fail("deadlock: the only thread waits for a lock it holds itself");
    ++vf::mutex_acquisitions;
    if (r == 0) ++vf::locks_held;
    return r;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    int r = pthread_rwlock_trywrlock(m);
    if (r == EBUSY) vf::fail("deadlock: the only thread waits for a lock it holds itself");
    ++vf::mutex_acquisitions;
    if (r == 0) ++vf::locks_held;
    return r;
}
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); if (r == 0 && vf::locks_held) --vf::locks_held; return r; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { int r = __real_pthread_rwlock_unlock(m); if (r == 0 && vf::locks_held) --vf::locks_held; return r; }
}

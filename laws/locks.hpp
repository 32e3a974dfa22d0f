// Mutexes of the C library as the analyses see them: one thread, every lock taken is counted.
#pragma once
#include <pthread.h>
#include "nsa.hpp"
namespace nsa { inline int held = 0; }
namespace nsa_std
{
    inline int mutex_lock(pthread_mutex_t* m) { ++m->__data.__nusers; ++nsa::held; return 0; }
    inline int mutex_unlock(pthread_mutex_t* m) { nsa::require(m->__data.__nusers > 0, "only a mutex that is locked is unlocked"); --m->__data.__nusers; --nsa::held; return 0; }
    inline int mutex_trylock(pthread_mutex_t* m) { ++m->__data.__nusers; ++nsa::held; return 0; }
    template <typename = void> void use() { (void)&mutex_lock; (void)&mutex_unlock; (void)&mutex_trylock; }
}
#define UNLOCKED(...) { int const h0 = nsa::held; { __VA_ARGS__ } nsa::require(nsa::held == h0, "every lock taken is released"); }

// Lock primitives of seq/lock.hpp, one root per operation. LK: the lock class; SHARED: shared mode exists; TIMED: timed operations exist.
#include <seq/lock.hpp>
#include <chrono>
#ifndef LK
#define LK seq::shared_spinner<unsigned>
#endif
using L = LK;
extern "C" {
L* vf_lk_ctor(void* p) { return ::new (p) L(); }
void vf_lk_lock(L& l) { l.lock(); }
void vf_lk_unlock(L& l) { l.unlock(); }
bool vf_lk_try_lock(L& l) { return l.try_lock(); }
void vf_lk_lock_shared(L& l) { l.lock_shared(); }
bool vf_lk_try_lock_shared(L& l) { return l.try_lock_shared(); }
void vf_lk_unlock_shared(L& l) { l.unlock_shared(); }
bool vf_lk_q_is_locked(const L& l) { return l.is_locked(); }
#ifdef FAST
bool vf_lk_try_lock_fast(L& l) { return l.try_lock_fast(); }
#endif
#ifdef TIMED
bool vf_lk_try_lock_for(L& l, std::chrono::nanoseconds d) { return l.try_lock_for(d); }
bool vf_lk_try_lock_until(L& l, std::chrono::system_clock::time_point t) { return l.try_lock_until(t); }
#endif
}

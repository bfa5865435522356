#ifndef FAKE_OS_LOCK_H_
#define FAKE_OS_LOCK_H_
#include <stdint.h>
#include <stdbool.h>
typedef struct os_unfair_lock_s { uint32_t _os_unfair_lock_opaque; } os_unfair_lock, *os_unfair_lock_t;
#define OS_UNFAIR_LOCK_INIT (os_unfair_lock{0})
extern "C" {
void os_unfair_lock_lock(os_unfair_lock_t);
bool os_unfair_lock_trylock(os_unfair_lock_t);
void os_unfair_lock_unlock(os_unfair_lock_t);
void os_unfair_lock_assert_owner(const os_unfair_lock*);
}
#endif

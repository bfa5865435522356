// Declarations of the libdispatch calls the library uses (without Objective-C).
#ifndef FAKE_DISPATCH_H_
#define FAKE_DISPATCH_H_
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <time.h>
typedef struct dispatch_semaphore_s* dispatch_semaphore_t;
typedef uint64_t dispatch_time_t;
typedef union { dispatch_semaphore_s* sema; void* any; } dispatch_object_any;
#define DISPATCH_TIME_NOW (0ull)
#define DISPATCH_TIME_FOREVER (~0ull)
#define NSEC_PER_SEC 1000000000ull
#define KERN_SUCCESS 0
#define KERN_OPERATION_TIMED_OUT 49
extern "C" {
dispatch_semaphore_t dispatch_semaphore_create(long value);
long dispatch_semaphore_wait(dispatch_semaphore_t, dispatch_time_t timeout);
long dispatch_semaphore_signal(dispatch_semaphore_t);
dispatch_time_t dispatch_time(dispatch_time_t when, int64_t delta);
dispatch_time_t dispatch_walltime(const struct timespec* when, int64_t delta);
void dispatch_release(dispatch_semaphore_t);
void fake_free(void*);
}
#endif
